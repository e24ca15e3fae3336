"""Drives the library through its Python package: matrix programs (spec/Mats.tla), problem histories (spec/Problem.tla),
multistart (spec/Multistart.tla), call tables (spec/PyCall.tla) and object lifetimes (spec/PyLife.tla).
Every operation is written in one of the spellings Python offers for it, chosen pseudo-randomly."""
import datetime
import fractions
import ctypes, gc, itertools, json, math, os, random, shutil, sys, tempfile, threading, time

sys.path.insert(0, sys.argv[1])
import numpy as np
import sleipnir.autodiff as ad
import sleipnir.optimization as opt
from sleipnir.autodiff import Variable, VariableMatrix
so = ctypes.CDLL([os.path.join(sys.argv[1], "sleipnir", f) for f in os.listdir(os.path.join(sys.argv[1], "sleipnir")) if f.endswith(".so")][0])
libc = ctypes.CDLL(None)
rng = random.Random(1)
N = None


def pick(*fs):
    return rng.choice(fs)()


# ------------------------------------------------------------------ numeric operands
def num(x):
    """a number as an int or a float"""
    return int(x) if rng.random() < 0.5 else float(x)


DT = [np.float64, np.float64, np.float32, np.int64, np.int32]


def array(vals, R, C, types=DT):
    a = np.array(vals, dtype=float).reshape(R, C)
    dt = rng.choice(types)
    k = rng.randrange(5)
    if k == 0:
        return np.asfortranarray(a.astype(dt))
    if k == 1:   # every second row and column of something bigger
        b = np.full((2 * R + 1, 3 * C + 1), 77).astype(dt)
        v = b[1:2 * R + 1:2, 0:3 * C:3]
        v[:, :] = a
        return v
    if k == 2:
        return np.ascontiguousarray(a.T.astype(dt)).T
    if k == 3:
        b = a.astype(dt)
        b.setflags(write=False) if dt is np.float64 and rng.random() < 0 else None
        return b
    return a.astype(dt)


# ------------------------------------------------------------------ Mats
class Mats:
    def __init__(self, w):
        nm, nv, nc, seed = map(int, w[:4])
        self.M = [None] * (nm + 1)
        self.W = [None] * (nv + 1)
        self.root = [0] * (nv + 1)
        self.C = [None] * (nc + 1)
        a = VariableMatrix(3, 3)
        a.set_value(np.array(list(map(float, w[4:13]))).reshape(3, 3))
        self.M[1] = a
        for i in range(2, nm + 1):
            self.M[i] = VariableMatrix(a[(i * 4) % 9])

    def obj(self, o):
        return self.M[o[1]] if o[0] == "M" else self.W[o[1]]

    def cell(self, o):
        return self.elem(self.obj(o[1]), o[2], o[3])

    @staticmethod
    def elem(m, r, c):
        R, C = m.shape
        return pick(lambda: m[r, c], lambda: m[r - R, c - C], lambda: m[r, c - C], lambda: m[r * C + c], lambda: m[r * C + c - R * C])

    def scalar(self, o):
        return self.cell(o) if o[0] == "C" else num(o[1])

    def mat(self, o, types=DT):
        return array(o[3], o[1], o[2], types) if o[0] == "E" else self.obj(o)

    def any(self, o, types=DT):
        return self.mat(o, types) if o[0] in "MVE" else self.scalar(o)

    def handles(self, o):
        """the elements an operand consists of, as things with a value"""
        if o[0] == "E":
            return [Variable(float(x)) for x in o[3]]
        if o[0] == "D":
            return [Variable(float(o[1]))]
        if o[0] == "C":
            return [self.cell(o)]
        return list(self.obj(o))

    def setM(self, i, new):
        old = self.M[i]
        if old.shape == new.shape and any(w is not None and r == i for w, r in zip(self.W, self.root)):
            old[:, :] = new
            return
        if old.shape != new.shape:
            for k in range(len(self.W)):
                if self.root[k] == i:
                    self.W[k] = None
        self.M[i] = new

    def take(self, m, q):
        R, C = m.shape
        if q[0] == "blk":
            _, a, b, r, c = q
            return m[self.span(a, r, R), self.span(b, c, C)]
        if q[0] == "row":
            i = q[1]
            return pick(lambda: m.row(i), lambda: m[i, :], lambda: m[i - R, :], lambda: m[i:i + 1, :], lambda: m[i - R, ::1], lambda: m[i, 0:C])
        if q[0] == "col":
            i = q[1]
            return pick(lambda: m.col(i), lambda: m[:, i], lambda: m[:, i - C], lambda: m[:, i:i + 1], lambda: m[0:R, i - C])
        if q[0] == "seg":
            return m[self.span(q[1], q[2], R), :]
        big = lambda v: None if v is None else {900: sys.maxsize, -900: -sys.maxsize}.get(v, v)
        s, t = [slice(*map(big, p)) for p in (q[1:4], q[4:7])]
        return m[s, t]

    @staticmethod
    def span(a, n, L):
        return pick(lambda: slice(a, a + n), lambda: slice(a - L if a < L and n else a, a + n), lambda: slice(a, a + n, 1),
                    lambda: slice(a, a + n - L if a + n < L and n else a + n))

    def dump(self, m):
        R, C = m.shape
        assert (R, C) == (m.rows(), m.cols()) and len(m) == R
        n = R * C
        put = lambda vs: " ".join(float(v).hex() for v in vs)
        p = [f"{R} {C} {n}"]
        p.append(put(self.elem(m, r, c).value() for r in range(R) for c in range(C)))
        p.append(put(m[k].value() for k in range(n)))
        p.append(put(x.value() for x in m))
        p.append(put(x.value() for x in list(iter(m))))
        cp = VariableMatrix(m) if not isinstance(m, VariableMatrix) else VariableMatrix([[m[r, c] for c in range(C)] for r in range(R)]) if n else m
        p.append(put(cp[k].value() for k in range(n)))
        p.append(put(m[-1 - k].value() for k in range(n)))
        rev = m[::-1, ::-1]
        p.append(put(x.value() for x in rev))
        p.append(put(rev[k].value() for k in range(n)))
        t = m.T
        p.append(f"{t.rows()} {t.cols()} " + put(x.value() for x in t))
        v = m.value()
        if v.ndim != 2:
            v = v.reshape(R, C)
        p.append(f"{v.shape[0]} {v.shape[1]} " + put(v.flatten()))
        p.append(put(m.value(r, c) for r in range(R) for c in range(C)))
        p.append(put(m.value(k) for k in range(n)))
        return " | ".join(p)

    def run(self, a):
        n = a[0]
        if n == "leaf":
            _, i, R, C, v = a
            m = VariableMatrix(R) if C == 1 and rng.random() < 0.5 else VariableMatrix(R, C)
            m.set_value(array(v, R, C))
            self.setM(i, m)
        elif n == "con":
            _, i, f, R, C, v = a
            g = [v[r * C:r * C + C] for r in range(R)]
            if f == "vv":
                m = VariableMatrix([[num(x) for x in r] for r in g])
            elif f in ("vV", "lit"):
                m = VariableMatrix([[Variable(num(x)) for x in r] for r in g])
            elif f == "identity":
                m = VariableMatrix.identity(R)
            elif f == "zero":
                m = VariableMatrix.zero(R, C)
            elif f == "one":
                m = VariableMatrix.one(R, C)
            elif f == "constant":
                m = VariableMatrix.constant(R, C, float(v[0]))
            else:
                m = VariableMatrix(array(v, R, C, [np.float64, np.float32]))
            self.setM(i, m)
        elif n == "span":
            _, i, R, C, t = a
            h = list(self.obj(t))
            self.setM(i, VariableMatrix([h[r * C:r * C + C] for r in range(R)]))
        elif n == "mcopy":
            m = self.obj(a[2])
            self.setM(a[1], VariableMatrix(m[:, :]) if isinstance(m, VariableMatrix) else VariableMatrix(m))
        elif n == "view":
            b = self.take(self.obj(a[2]), a[3])
            self.W[a[1]] = b
            self.root[a[1]] = a[2][1] if a[2][0] == "M" else self.root[a[2][1]]
        elif n == "peek":
            return self.dump(self.take(self.take(self.obj(a[2]), a[3]), a[4]))
        elif n == "el":
            _, t, r, c, x = a
            m, v = self.obj(t), self.scalar(x)
            R, C = m.shape
            if isinstance(v, Variable) and rng.random() < 0.5:
                k = r * C + c
                m[rng.choice([k, k - R * C])] = v
            else:
                m[rng.choice([r, r - R]), rng.choice([c, c - C])] = v
        elif n == "asg":
            m = self.obj(a[1])
            self.whole(m, self.mat(a[2]))
        elif n == "asgx":
            self.whole(self.obj(a[1]), self.obj(a[2]) + self.obj(a[3]))
        elif n == "comp":
            m, x = self.obj(a[1]), self.mat(a[3])
            self.whole(m, self.arith(a[2], m, x))
        elif n == "comps":
            m, x = self.obj(a[1]), self.scalar(a[3])
            if a[2] == "div" and rng.random() < 0.6:
                k = m
                m /= x
                assert m is k or m.shape == k.shape
                if m is not k:
                    self.whole(k, m)
            elif a[2] in ("add", "sub"):
                self.whole(m, m + x if a[2] == "add" else m - x)
            else:
                self.whole(m, self.times(m, x) if a[2] == "mul" else m / x)
        elif n == "bin":
            _, i, op, x, y = a
            if op == "red":
                f, g = self.obj(x), self.obj(y)
                self.setM(i, ad.cwise_reduce(f, g, lambda p, q: p * q - p))
            else:
                self.setM(i, self.arith(op, self.mat(x), self.mat(y)))
        elif n == "bins":
            _, i, op, x, y, left = a
            m, v = self.obj(x), self.scalar(y)
            self.setM(i, m / v if op == "div" else v * m if left else m * v)
        elif n == "un":
            m = self.obj(a[3])
            if a[2] == "T":
                r = m.T
            elif a[2] == "neg":
                r = -m
            else:
                r = pick(lambda: m ** 2, lambda: m.cwise_map(lambda p: p * p))
            self.setM(a[1], r)
        elif n == "blk":
            _, i, R, C, q = a
            self.setM(i, ad.block([[self.obj(q[r * C + c]) for c in range(C)] for r in range(R)]))
        elif n == "set":
            m, v = self.obj(a[1]), a[2]
            R, C = m.shape
            if not isinstance(m, VariableMatrix) and R * C == 1 and rng.random() < 0.5:
                m.set_value(num(v[0]))
            else:
                m.set_value(array(v, R, C))
        elif n == "setc":
            self.cell(a[1]).set_value(num(a[2]))
        elif n == "rel":
            _, k, rel, x, y = a
            l, r = self.handles(x), self.handles(y)
            f, g = self.any(x), self.any(y)
            if isinstance(f, np.ndarray) and isinstance(g, Variable):   # NumPy compares such pairs element by element itself
                f = VariableMatrix(f.astype(float))
            if isinstance(g, np.ndarray) and isinstance(f, Variable):
                g = VariableMatrix(g.astype(float))
            c = {"==": lambda: f == g, "<": lambda: f < g, "<=": lambda: f <= g, ">": lambda: f > g, ">=": lambda: f >= g}[rel]()
            self.C[k] = (c, self.pairs(rel, l, r))
        elif n == "bnd":
            _, k, lo, x, hi = a
            T = [np.float64]
            c = opt.bounds(self.any(lo, T), self.any(x), self.any(hi, T))
            l, m, h = self.handles(lo), self.handles(x), self.handles(hi)
            self.C[k] = (c, self.pairs("<=", l, m) + self.pairs("<=", m, h))
        elif n == "cat":
            _, k, kind, which, _how = a
            cls = opt.EqualityConstraints if kind == "eq" else opt.InequalityConstraints
            self.C[k] = (cls([self.C[i][0] for i in which]), [p for i in which for p in self.C[i][1]])
        elif n == "ask":
            c, ps = self.C[a[1]]
            kind = {opt.EqualityConstraints: "eq", opt.InequalityConstraints: "ge"}[type(c)]
            return " ".join([kind] + [float(p.value() - q.value()).hex() for p, q in ps] + [str(int(bool(c)))])
        elif n == "dump":
            return self.dump(self.obj(a[1]))
        else:
            return "? " + n
        return "ok"

    @staticmethod
    def pairs(rel, l, r):
        k = max(len(l), len(r)) if l and r else 0
        if len(l) == 1:
            l = l * k
        if len(r) == 1:
            r = r * k
        return list(zip(r, l)) if rel in ("<", "<=") else list(zip(l, r))

    @staticmethod
    def whole(m, v):
        R, C = m.shape
        key = rng.choice([(slice(None), slice(None)), (slice(0, R), slice(0, C)), (slice(None, None, 1), slice(0, None))])
        if R == 1 and rng.random() < 0.3:
            key = (rng.choice([0, -1]), key[1])
        elif C == 1 and rng.random() < 0.3:
            key = (key[0], rng.choice([0, -1]))
        m[key] = v

    @staticmethod
    def times(m, x):
        return pick(lambda: m * x, lambda: x * m)

    @staticmethod
    def arith(op, x, y):
        if op == "add":
            return x + y
        if op == "sub":
            return x - y
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            return x @ y
        return pick(lambda: x @ y, lambda: x * y)


def nest(w):
    """the nested list form of a command (json)"""
    return json.loads(w)


# ------------------------------------------------------------------ Problem
class Stop(Exception):
    pass


class Prob:
    def __init__(self):
        self.P = opt.Problem()
        self.X = []
        self.par = Variable()
        self.par.set_value(0)
        self.ncb = 0
        self.log, self.watch = [], None

    def see(self, i, id):
        if self.watch is not None:
            if self.watch["first"] is None or self.watch["first"] == id:
                self.watch["first"] = id
                self.record(i)
            return
        self.log += [i.iteration, id]
        n, ne, ni = len(self.X), self.ne, self.ni
        L = lambda v: len(v)
        self.dims &= (L(i.x) == n and L(i.s) == ni and L(i.y) == ne and L(i.z) == ni and i.g.shape[0] * i.g.shape[1] == n and i.H.shape == (n, n)
                      and i.A_e.shape[0] == ne and (ne == 0 or i.A_e.shape[1] == n) and i.A_i.shape[0] == ni and (ni == 0 or i.A_i.shape[1] == n))
        if self.first:
            self.first = False
            self.init &= L(i.x) == n and all(a == b or (a != a and b != b) for a, b in zip(i.x, self.before))

    def record(self, i):
        self.iter.append([float(v) for v in i.x])
        for k, m in enumerate((i.H, i.A_e, i.A_i)):
            c = m.tocoo()
            self.pat[k].append([[int(r), int(q), int(np.sign(v))] for r, q, v in zip(c.row, c.col, c.data)])

    def values(self):
        return [x.value() for x in self.X]

    def run(self, w):
        op, P = w[0], self.P
        if op == "dv":
            self.X.append(P.decision_variable())
            return f"zero {int(self.X[-1].value() == 0)}"
        if op == "dm":
            r, c = int(w[1]), int(w[2])
            m = P.decision_variable(r) if c == 1 and rng.random() < 0.5 else pick(lambda: P.decision_variable(r, c), lambda: P.decision_variable(rows=r, cols=c))
            z = m.shape == (r, c) and not m.value().any()
            self.X += [m[a, b] for a in range(r) for b in range(c)]
            return f"zero {int(z)}"
        if op == "ds":
            r = int(w[1])
            m = P.symmetric_decision_variable(r)
            z = m.shape == (r, r)
            for a in range(r):
                for b in range(a + 1):
                    z = z and m[a, b].value() == 0 and m[b, a].value() == 0
                    m[a, b].set_value(5)
                    z = z and m[b, a].value() == 5
                    m[a, b].set_value(0)
                    self.X.append(m[a, b])
            return f"zero {int(z)}"
        if op == "sym":
            r = int(w[1])
            q = opt.Problem()
            m = q.symmetric_decision_variable(r)
            f = Variable(0.0)
            for a in range(r):
                for b in range(a + 1):
                    d = m[a, b] - (10 * (a + 1) + b + 1)
                    f = f + d * d
            q.minimize(f)
            n = []
            q.add_callback(lambda i: bool(n.append(len(i.x))))
            st = q.solve()
            return json.dumps({"st": st.value, "n": n[0] if n else -1, "m": [float(v) for v in m.value().flatten()]})
        if op in ("set", "odd"):
            self.X[int(w[1]) - 1].set_value(float(w[2]))
        elif op == "par":
            self.par.set_value(int(w[1]))
        elif op == "cost":
            form, sense, usep, style, n = map(int, w[1:6])
            ws, a = [int(x) for x in w[6:6 + n]], [int(x) for x in w[6 + n:6 + 2 * n]]
            f = Variable(3.0 if form == 1 else 0.0)
            for k in range(n if form > 1 else 0):
                d = self.X[k] - num(a[k])
                if usep and form > 2:
                    d = d - self.par
                t = self.X[k] if form == 2 else d * d if form == 3 else pick(lambda: ad.pow(d, 4.0), lambda: d ** 4) + pick(lambda: d ** 2, lambda: d * d)
                f = pick(lambda: f + ws[k] * t, lambda: f + t * float(ws[k]))
            go = P.maximize if sense else P.minimize
            if form == 1 and style == 2:
                go(num(3))
            else:
                if sense and form != 2:
                    f = -f
                go(f if style == 0 else VariableMatrix(f) if style == 1 else VariableMatrix(f)[0, 0])
        elif op in ("eq", "in"):
            m, style = int(w[1]), int(w[2])
            lhs, rhs, ge = [], [], []
            for q in range(m):
                form, k, e, g = map(int, w[3 + 4 * q:7 + 4 * q])
                x = self.X[k - 1] if self.X else None
                ge.append(bool(g) or form == 1)
                lhs.append(Variable(float(e)) if form == 1 else x if form == 2 else x * x if form == 3 else ad.exp(x))
                rhs.append(num(0) if form == 1 else num(e) if form == 2 else num(e * e) if form == 3 else math.exp(e))
            if op == "eq":
                one = lambda q: pick(lambda: lhs[q] == rhs[q], lambda: rhs[q] == lhs[q])
            else:
                one = lambda q: pick(lambda: lhs[q] >= rhs[q], lambda: rhs[q] <= lhs[q], lambda: lhs[q] > rhs[q]) if ge[q] else \
                    pick(lambda: lhs[q] <= rhs[q], lambda: rhs[q] >= lhs[q], lambda: rhs[q] > lhs[q])
            if style == 0:
                for q in range(m):
                    P.subject_to(one(q))
            elif style == 1:
                P.subject_to((opt.EqualityConstraints if op == "eq" else opt.InequalityConstraints)([one(q) for q in range(m)]))
            else:
                s = [1 if op == "eq" or ge[q] else -1 for q in range(m)]
                L = VariableMatrix([[lhs[q] if s[q] > 0 else -lhs[q]] for q in range(m)])
                R = np.array([[float(s[q] * rhs[q])] for q in range(m)])
                L = pick(lambda: L, lambda: L[:, :])
                P.subject_to(pick(lambda: L == R, lambda: R == L) if op == "eq" else pick(lambda: L >= R, lambda: R <= L, lambda: L > R, lambda: R < L))
        elif op == "cb":
            id, kind, at = int(w[1]), w[2], int(w[3])
            self.ncb += 1

            def cb(i):
                self.see(i, id)
                if self.watch is None and i.iteration == at:
                    if kind == "x":
                        raise Stop("stop")
                    if kind == "s":
                        return True
                return False
            P.add_callback(cb)
        elif op == "clear":
            P.clear_callbacks()
            self.ncb = 0
        elif op == "types" or op == "solve":
            o = {"types": [P.cost_function_type().value, P.equality_constraint_type().value, P.inequality_constraint_type().value]}
            if op == "solve":
                self.solve(w, o)
            return json.dumps(o)
        return "ok"

    def solve(self, w, o):
        P = self.P
        style, self.ne, self.ni = map(int, w[1:4])
        lim, at, rec, nr = w[4], int(w[5]), int(w[6]), int(w[7])
        reset = [int(x) for x in w[8:8 + nr]]
        self.before = self.values()
        self.iter, self.pat = [], [[], [], []]
        kw = {"max_iterations": 300}
        own = self.ncb == 0
        fst = 0
        if lim != "none" or rec:
            self.watch = {"first": None}
            if own:
                P.add_callback(lambda i: bool(self.see(i, 0)))
            fst = P.solve(**kw).value
            if own:
                P.clear_callbacks()
            self.watch = None
            self.iter.append(self.values())
            for x, v in zip(self.X, self.before):
                x.set_value(v)
        self.log, self.dims, self.init, self.first = [], True, True, True
        if lim == "it":
            kw["max_iterations"] = at
        if lim == "time":
            kw["timeout"] = 50 if rng.random() < 0.5 else 50.0
            slow = [True]       # callbacks cannot be removed one by one: it stops acting after this solve
            P.add_callback(lambda i: bool(slow[0] and i.iteration == at and so.p31_advance(ctypes.c_longlong(100_000_000_000))))
        if style > 0:
            kw["diagnostics"] = True
        if rng.random() < 0.3:
            kw["tolerance"] = 1e-8
        if rec or rng.random() < 0.2:
            kw["spy"] = bool(rec)
        kw = dict(rng.sample(list(kw.items()), len(kw)))
        home = os.getcwd()
        tmp = tempfile.mkdtemp(prefix="p31-")
        text = ""
        try:
            os.chdir(tmp)
            libc.fflush(None)
            fd = os.dup(1)
            f = tempfile.TemporaryFile()
            os.dup2(f.fileno(), 1)
            try:
                st = P.solve(**kw).value
            except Stop:
                st = 99
            finally:
                libc.fflush(None)
                os.dup2(fd, 1)
                os.close(fd)
            f.seek(0)
            text = f.read().decode("utf-8", "replace")
            files = {n: open(n, "rb").read().hex() for n in sorted(os.listdir("."))}
        finally:
            os.chdir(home)
            shutil.rmtree(tmp)
        if lim == "time":
            slow[0] = False
            if own:
                P.clear_callbacks()
        x = self.values()
        o.update(st=st, dims=int(self.dims), init=int(self.init), par=self.par.value(), log=self.log, x=[v if math.isfinite(v) else str(v) for v in x])
        eq = lambda a, b: a == b or (a != a and b != b)
        if self.iter:
            o.update(fst=fst, free=len(self.iter) - 1, at=[k for k, v in enumerate(self.iter) if len(v) == len(x) and all(map(eq, v, x))])
        if rec:
            o.update(spy=files, pat=self.pat)
        elif files:
            o["text"] = "unexpected files"
            o["types"] = ["files written without being asked"]
        o["same"] = int(all(map(eq, x, self.before)))
        if bool(text) != (style > 0):
            o["types"] = ["diagnostics printed" if text else "diagnostics missing"]
        end = text.find("setup")
        o["text"] = text[:1500 if end < 0 else min(end, 1500)]
        rows = []
        for l in text.split("\n"):
            if l.startswith("│"):
                t = l[1:].lstrip().split()
                if t and t[0].isdigit():
                    rows.append(int(t[0]))
        o["rows"] = rows
        e = text.rfind("Exit:")
        o["exit"] = "" if e < 0 else text[e + 5:text.find("\n", e)]
        for v, y in zip(self.X, reset):
            v.set_value(y)


# ------------------------------------------------------------------ multistart
def multi(w):
    n = int(w[0])
    out = [(int(w[1 + 2 * k]), float(w[2 + 2 * k])) for k in range(n)]
    order = [int(x) for x in w[1 + 2 * n:]]
    done = [threading.Event() for _ in range(n)]
    started, calls, lock = threading.Barrier(n), [0] * n, threading.Lock()
    status = {s.value: s for s in opt.ExitStatus}

    def solve(g):
        with lock:
            calls[g - 100] += 1
        started.wait(60)
        p = order.index(g - 100)
        if p:
            done[order[p - 1]].wait(60)
            time.sleep(0.0005)
        done[g - 100].set()
        s, c = out[g - 100]
        return (status[s], c, [g, g + 0.5])
    try:
        s, c, v = opt.multistart(solve, [100 + k for k in range(n)])
    except threading.BrokenBarrierError:
        return "stuck"
    return f"{s.value} {c} {v[0]} {int(v[1] == v[0] + 0.5)}|{' '.join(map(str, calls))}|{sum(calls)}"


# ------------------------------------------------------------------ call tables
def operand(o):
    k, v = o["k"], o["v"]
    v = float(fractions.Fraction(v))
    return {"int": lambda: int(v), "float": lambda: v, "np": lambda: np.float64(v), "var": lambda: leaf(v), "mat": lambda: matrix(v), "blk": lambda: matrix(v)[:, :]}[k]()


def leaf(v):
    x = Variable()
    x.set_value(v)
    return x


def matrix(v):
    m = VariableMatrix(2, 2)
    m.set_value(np.array([[v, v], [v, v]], dtype=float))
    return m


NAMES = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b, "ipow": lambda a, b: a ** b,
         "neg": lambda a: -a, "pos": lambda a: +a, "eq": lambda a, b: a == b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
         "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


def inplace(op, a, b):
    if op == "iadd":
        a += b
    elif op == "isub":
        a -= b
    elif op == "imul":
        a *= b
    elif op == "idiv":
        a /= b
    return a


def call(q):
    args = [operand(o) for o in q["args"]]
    fn = q["fn"]
    if fn in ("iadd", "isub", "imul", "idiv"):
        leaf_ = [a for a in args if isinstance(a, Variable)]
        keep = args[0]
        r = inplace(fn, args[0] + 0.0, args[1])     # a node of its own; the leaf stays itself
        args[0] = keep
    elif fn in NAMES:
        r = NAMES[fn](*args)
    elif fn.startswith("m."):
        r = getattr(args[0], fn[2:])()
    else:
        r = getattr(ad, fn)(*args)
    if isinstance(r, (opt.EqualityConstraints, opt.InequalityConstraints)):
        return {"kind": "eq" if isinstance(r, opt.EqualityConstraints) else "ge", "v": bool(r)}
    if isinstance(r, (int, float)) and not isinstance(r, bool):
        return {"kind": "number", "v": r}
    els = [r] if isinstance(r, Variable) else list(r)
    shape = [1, 1] if isinstance(r, Variable) else list(r.shape)
    out = {"kind": "var" if isinstance(r, Variable) else "mat", "shape": shape, "v": [e.value() for e in els], "d": []}
    for a in args:
        if isinstance(a, Variable):
            ws = [a]
        elif isinstance(a, (int, float)):
            ws = []
        else:
            ws = list(a)
        d = []
        for e in els:
            row = []
            for x in ws:
                g = ad.Gradient(e, x)
                v1 = g.value().toarray()[0, 0]
                v2 = ad.Jacobian(e, x).value().toarray()[0, 0]
                v3 = g.get()[0, 0].value()
                row.append(v1 if v1 == v2 == v3 else "differ")
            d.append(row)
        out["d"].append(d)
    return out


def diff(c):
    n, m, what = c["n"], c["m"], c["what"]
    x = VariableMatrix(n, 1)
    big = VariableMatrix(n, 2)
    if c["wrt"] == "view":
        x = big[:, 1:]
    xs = [x[k, 0] for k in range(n)]
    if c["wrt"] == "var":
        xs = [Variable()]
    wrt = {"var": lambda: xs[0], "elem": lambda: x[0, 0], "mat": lambda: x, "view": lambda: pick(lambda: VariableMatrix(x), lambda: x),
           "list": lambda: VariableMatrix([[e] for e in xs])}[c["wrt"]]()
    fs = []
    for r in range(m):
        f = Variable(float(c["d"][r]))
        for a in range(n):
            if c["l"][r][a]:
                f = f + c["l"][r][a] * xs[a]
            for b in range(a, n):
                if c["q"][r][a][b]:
                    f = f + c["q"][r][a][b] * (xs[a] ** 2 if a == b and rng.random() < 0.5 else xs[a] * xs[b])
        fs.append(f)
    if m == 1 and (c["of"] == "var" or what != "jac" or c["wrt"] in ("var", "elem")):
        of = fs[0]
    elif c["of"] == "list":
        of = VariableMatrix([[f] for f in fs])
    else:
        of = VariableMatrix(m, 1)
        for r in range(m):
            of[r, 0] = fs[r]
    make = {"grad": ad.Gradient, "hess": ad.Hessian, "jac": ad.Jacobian}[what]
    names = ("variables" if isinstance(of, VariableMatrix) else "variable", "wrt")
    try:
        J = make(**dict(zip(names, (of, wrt)))) if rng.random() < 0.3 else make(of, wrt)
    except TypeError:
        if c["wrt"] != "view" or isinstance(wrt, VariableMatrix):
            raise
        J = make(of, VariableMatrix(wrt))
    del of, wrt, fs, f
    gc.collect()
    out = []
    for pt in c["pts"]:
        for e, t in zip(xs, pt):
            e.set_value(t)
        S = J.value()
        G = J.get()
        V = G.value()
        T = S.toarray()
        out.append(T.tolist() if T.shape == V.shape == (G.rows(), G.cols()) and (T == V).all() else ["differ", T.tolist(), V.tolist()])
    return out


def refused(P, kw):
    """a keyword solve() does not have"""
    kw = dict(kw, **{rng.choice(["tol", "Tolerance", "max_iteration", "time_out", "feasible", "diagnostic", "spy_", ""]): 1})
    kw = dict(rng.sample(list(kw.items()), len(kw)))
    try:
        P.solve(**kw)
    except KeyError:
        return True
    return False


def options(q):
    P = opt.Problem()
    x = P.decision_variable()
    x.set_value(1)
    P.minimize(pick(lambda: x * x * x * x, lambda: x ** 4, lambda: ad.pow(x, 4)))
    seen = []

    def cb(i):
        seen.append(i.iteration)
        return i.iteration == q["stop"]
    P.add_callback(cb)
    kw = {"tolerance": 4 * (8 / 27) ** q["k"] * 1.5}
    if q["cap"] != 99:
        kw["max_iterations"] = q["cap"]
    for name, v in (("timeout", 1e6), ("feasible_ipm", False), ("feasible_ipm", True), ("diagnostics", False), ("spy", False)):
        if rng.random() < 0.25:
            kw[name] = v
    kw = dict(rng.sample(list(kw.items()), len(kw)))
    ref = refused(P, kw) and not seen and x.value() == 1
    st = P.solve(**kw)
    return {"st": st.value, "x": x.value(), "seen": seen, "refused": ref}


def feasible(q):
    """a ball around the start, a minimum outside it"""
    P = opt.Problem()
    x = P.decision_variable(len(q["t"]), 1)
    f = Variable(0.0)
    for a, t in zip(x, q["t"]):
        f = f + (a - t) ** 2
    P.minimize(f)
    P.subject_to(q["r"] ** 2 - (x.T @ x)[0, 0] >= 0)
    seen = []

    def cb(i):
        seen.append(q["r"] ** 2 - sum(float(v) ** 2 for v in i.x))
        return False
    P.add_callback(cb)
    st = P.solve(feasible_ipm=True)
    return {"st": st.value, "low": min(seen), "x": [v.value() for v in x]}


def linear(c):
    def mk(a):
        a = np.array(a, dtype=float)
        m = VariableMatrix(*a.shape)
        m.set_value(a)
        return pick(lambda: m, lambda: VariableMatrix(a), lambda: m[:, :], lambda: m.T.T)
    if c["k"] == "solve":
        return ad.solve(mk(c["A"]), mk(c["B"])).value().tolist()
    if c["k"] == "exp":
        m = VariableMatrix(len(c["A"]), len(c["A"]))
        m.set_value(np.array(c["A"], dtype=float))
        return pick(lambda: m, lambda: m[:, :]).exp().value().tolist()
    xs = [leaf(2.0), leaf(3.0), leaf(5.0)]
    f = None
    for t in c["f"]:
        g = Variable(7.0)
        for j in t:
            g = g * xs[j - 1]
        f = g if f is None else f + g
    return [[f.type().value]]


# ------------------------------------------------------------------ lifetimes
class Life:
    """names hold matrices, views of them, iterators over them, elements and derivatives; dropping a name must not disturb the others"""
    def __init__(self):
        self.n = {}
        self.extra = []

    def churn(self):
        """fresh allocations land where a freed object was"""
        gc.collect()
        for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2)):
            for _ in range(3):
                m = VariableMatrix(r, c)
                m.set_value(np.full((r, c), -7777.0))
                self.extra.append((m, m[:, :], m.T))
        del self.extra[:-72]

    def run(self, a):
        op = a[0]
        if op == "new":
            _, x, how, R, C, v = a
            v = np.array(v, dtype=float).reshape(R, C)
            if how == "prob":
                p = opt.Problem()
                m = p.decision_variable(R, C)
                del p
                m.set_value(v)
            elif how == "array":
                m = VariableMatrix(v)
            elif how == "rows":
                m = VariableMatrix([[leaf(e) for e in row] for row in v])
            else:
                m = VariableMatrix(R, C)
                m.set_value(v)
            self.n[x] = m
            self.churn()
        elif op == "take":
            _, x, y, how, r, c = a
            s = self.n[y]
            got = {"row": lambda: s.row(r), "col": lambda: s.col(c), "slice": lambda: s[:, :], "part": lambda: s[r, :], "down": lambda: s[:, c],
                   "elem": lambda: s[r, c], "lin": lambda: s[r * s.cols() + c], "T": lambda: s.T, "list": lambda: list(s), "iter": lambda: iter(s),
                   "expr": lambda: s[r, c] * s[r, c] + s[r, c], "neg": lambda: -s,
                   "grad": lambda: ad.Gradient(sum(e * e for e in s), VariableMatrix([[e] for e in s]))}[how]()
            self.n[x] = got
            del s, got
            self.churn()
        elif op == "drop":
            del self.n[a[1]]
            self.churn()
        elif op == "write":
            s = self.n[a[1]]
            if isinstance(s, Variable):
                s.set_value(a[2][0])
            else:
                s.set_value(np.array(a[2], dtype=float).reshape(s.rows(), s.cols()))
        elif op == "read":
            s = self.n[a[1]]
            if isinstance(s, Variable):
                return json.dumps([s.value()])
            if isinstance(s, ad.Gradient):
                g = s.get()
                v = s.value().toarray()
                w = [g[k].value() for k in range(g.rows() * g.cols())]
                return json.dumps(w if list(v.reshape(-1)) == w else ["differ", w, v.tolist()])
            r = [x.value() for x in s]
            if hasattr(s, "__next__"):
                del self.n[a[1]]     # an iterator can be read once
            elif not isinstance(s, list):
                v = s.value()
                w = [s.value(i, j) for i in range(s.rows()) for j in range(s.cols())]
                if w != r or list(v.reshape(-1)) != r:
                    return json.dumps(["differ", r, w, v.tolist()])
            return json.dumps(r)
        return "ok"


# ------------------------------------------------------------------ optimal control
class Ocp:
    """the commands of p23_ocp.cpp; Python's dynamics are functions of the state and input"""
    METHODS = (opt.TranscriptionMethod.DIRECT_TRANSCRIPTION, opt.TranscriptionMethod.DIRECT_COLLOCATION, opt.TranscriptionMethod.SINGLE_SHOOTING)
    STEPS = (opt.TimestepMethod.FIXED, opt.TimestepMethod.VARIABLE_SINGLE, opt.TimestepMethod.VARIABLE)

    def make(self, ns, nu, dt0, N, f, dyn, ts, m):
        d = (opt.DynamicsType.EXPLICIT_ODE, opt.DynamicsType.DISCRETE)[dyn]
        dt = datetime.timedelta(seconds=dt0) if rng.random() < 0.5 else dt0
        if rng.random() < 0.5:
            kw = dict(num_states=ns, num_inputs=nu, dt=dt, num_steps=N, dynamics=f)
            if dyn or rng.random() < 0.5:
                kw["dynamics_type"] = d
            if ts or rng.random() < 0.5:
                kw["timestep_method"] = self.STEPS[ts]
            if m or rng.random() < 0.5:
                kw["transcription_method"] = self.METHODS[m]
            return opt.OCP(**kw)
        return opt.OCP(ns, nu, dt, N, f, d, self.STEPS[ts], self.METHODS[m])

    def run(self, w):
        op, w = w[0], w[1:]
        I = lambda: int(w.pop(0))
        D = lambda: float(w.pop(0))
        mat = lambda r, c: np.array([[D() for _ in range(c)] for _ in range(r)]).reshape(r, c)
        if op == "new":
            m, dyn, ts, N, ns, nu, _, style = (I() for _ in range(8))
            dt0 = D()
            A, B, _, _, d = mat(ns, ns), mat(ns, nu - ns), mat(ns, 1), mat(ns, 1), mat(ns, 1)
            q, p, s = [I() for _ in range(ns)], [I() for _ in range(ns)], [I() for _ in range(ns)]

            def f(x, u):
                if style == 0:
                    r = A @ x + np.hstack((np.eye(ns), B)) @ u + d
                else:
                    r = VariableMatrix(ns, 1)
                    for a in range(ns):
                        e = u[a, 0] + d[a, 0]
                        for b in range(ns):
                            e = e + A[a, b] * x[b, 0]
                        for b in range(ns, nu):
                            e = e + u[b] * B[a, b - ns]
                        r[a, 0] = e
                for a in range(ns):
                    if q[a]:
                        r[a, 0] = r[a, 0] + q[a] * x[p[a] - 1, 0] * u[s[a] - 1, 0]
                return r
            self.N, self.ns, self.nu, self.ts, self.m = N, ns, nu, ts, m
            P = self.P = self.make(ns, nu, dt0, N, f, dyn, ts, m)
            del f
            gc.collect()
            sh = lambda n, v: f"{n} {v.rows()}x{v.cols()} "
            out = sh("X", P.X()) + sh("U", P.U()) + sh("DT", P.dt()) + sh("x0", P.initial_state()) + sh("xN", P.final_state())
            v = []
            for k in range(N + 1):
                v.append(P.dt()[0, k].value())
                v += [P.U()[a, k].value() for a in range(nu)]
                if m != 2 or k == 0:
                    v += [P.X()[a, k].value() for a in range(ns)]
            return f"{out}type {P.equality_constraint_type().value} values " + " ".join(map(repr, v))
        if op == "bound":
            nu, N, m, ts, scalar, lo_, hi_ = (I() for _ in range(7))
            lo, hi, tg = mat(nu, 1), mat(nu, 1), mat(N + 1, nu)
            lim, dlo, dhi = I(), D(), D()
            td, dt0 = mat(N + 1, 1), D()
            Q = self.make(1, nu, dt0, N, lambda x, u: u[0, :] if nu == 1 and rng.random() < 0.5 else VariableMatrix([[u[0, 0]]]), 0, ts, m)
            Q.constrain_initial_state(0)
            pack = lambda v: pick(lambda: v, lambda: VariableMatrix(v)) if not scalar else pick(lambda: int(v[0, 0]), lambda: v[0, 0], lambda: Variable(v[0, 0]))
            if lo_:
                Q.set_lower_input_bound(pack(lo))
            if hi_:
                Q.set_upper_input_bound(pack(hi))
            span = lambda t: datetime.timedelta(seconds=t) if rng.random() < 0.5 else t
            if ts and lim > 0:
                Q.set_min_timestep(span(dlo))
            if ts and lim > 1:
                Q.set_max_timestep(max_timestep=span(dhi))
            c = Variable(0.0)
            for k in range(N + 1):
                for a in range(nu):
                    c = c + (Q.U()[a, k] - tg[k, a]) ** 2
                if ts == 2 or (ts == 1 and k == 0):
                    c = c + ad.pow(Q.dt()[0, k] - td[k, 0], 2)
            Q.minimize(c)
            st = Q.solve().value
            v = [y for k in range(N + 1) for y in [Q.U()[a, k].value() for a in range(nu)] + [Q.dt()[0, k].value()]]
            return " ".join(map(repr, [st] + v))
        P, N, ns, nu, ts, m = self.P, self.N, self.ns, self.nu, self.ts, self.m
        if op == "set":
            X = mat(N + 1, ns)
            U = mat(N + 1, nu)
            for k in range(N + 1):
                if m != 2 or k == 0:
                    for a in range(ns):
                        P.X()[a, k].set_value(X[k, a])
            P.U().set_value(np.ascontiguousarray(U.T) if rng.random() < 0.5 else U.T)
            for k in range(N + 1):
                t = D()
                if ts == 2 or (ts == 1 and k == 0):
                    P.dt()[0, k].set_value(t)
            return "ok"
        if op == "vals":
            return " ".join(repr(float(v)) for v in P.X().value().T.reshape(-1))
        if op == "each":
            got = []

            def step(x, u):
                got.extend([x.rows(), x.cols()][2 * ((x.rows(), x.cols()) == (ns, 1)):])
                got.extend([u.rows(), u.cols()][2 * ((u.rows(), u.cols()) == (nu, 1)):])
                got.extend(e.value() for e in x)
                got.extend(e.value() for e in u)
            P.for_each_step(step)
            return " ".join(map(repr, got))
        if op == "feas":
            every = lambda: [v for g in (P.X(), P.U(), P.dt()) for v in g.value().reshape(-1)]
            before, its = every(), [0]

            def cb(info):
                its[0] += 1
                return its[0] > 1
            P.clear_callbacks()
            P.add_callback(cb)
            st = P.solve()
            if st != opt.ExitStatus.SUCCESS or its[0]:
                return "no"
            return "yes" if every() == before else "moved"
        if op == "end":
            which, arg = w.pop(0), I()
            x = mat(ns, 1)
            for k in range(N + 1):
                for a in range(nu):
                    P.subject_to(P.U()[a, k] == P.U()[a, k].value())
                    P.U()[a, k].set_value(0)
                if ts == 2 or (ts == 1 and k == 0):
                    P.subject_to(P.dt()[0, k] == P.dt()[0, k].value())
                for a in range(ns):
                    if m != 2 or k == 0:
                        P.X()[a, k].set_value(0)
            fix = P.constrain_final_state if which == "final" else P.constrain_initial_state
            one = all(e == x[0, 0] for e in x[:, 0])
            if arg == 1 and one:
                fix(pick(lambda: x[0, 0], lambda: Variable(x[0, 0]), lambda: int(x[0, 0]) if x[0, 0] == int(x[0, 0]) else x[0, 0]))
            elif arg == 2:
                fix(VariableMatrix(x))
            else:
                fix(x)
            P.clear_callbacks()
            st = P.solve().value
            return f"{st} " + " ".join(repr(float(v)) for v in P.X().value().T.reshape(-1))


# ------------------------------------------------------------------ main
cur = None
out = os.fdopen(os.dup(1), "w")
for line in sys.stdin:
    line = line.rstrip("\n")
    c, _, rest = line.partition(" ")
    try:
        if c == "N":
            w = rest.split()
            rng.seed(int(w[3]) * 1000003 + sum(map(int, w[4:13])))
            cur = Mats(w)
            r = "ok"
        elif c == "end":
            cur = None
            r = "0"
        elif c == "M":
            r = cur.run(nest(rest))
        elif c == "seed":
            rng.seed(int(rest))
            r = "ok"
        elif c == "new":
            cur = Prob()
            r = "ok"
        elif c == "P":
            r = cur.run(rest.split())
        elif c == "multi":
            r = multi(rest.split())
        elif c == "call":
            r = json.dumps(call(nest(rest)))
        elif c == "diff":
            q = nest(rest)
            rng.seed(q["i"])
            r = json.dumps(diff(q))
        elif c in ("options", "feasible"):
            rng.seed(rest)
            r = json.dumps((options if c == "options" else feasible)(nest(rest)))
        elif c == "lin":
            q = nest(rest)
            rng.seed(q["i"])
            r = json.dumps(linear(q))
        elif c == "names":
            t = getattr(ad if rest == "ExpressionType" else opt, rest)
            r = json.dumps({e.name: e.value for e in t})
        elif c == "O":
            w = rest.split()
            if w[0] in ("new", "bound"):
                rng.seed(rest)
                cur = Ocp()
            r = cur.run(w)
        elif c == "life":
            cur = Life()
            r = "ok"
        elif c == "L":
            r = cur.run(nest(rest))
        else:
            r = "?"
    except Exception as ex:
        r = "raised " + repr(ex).replace("\n", " ")[:300]
    out.write(r + "\n")
    out.flush()
