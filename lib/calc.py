"""Evaluates the formulas spec/Calc.tla emits and turns them into replay cases for harness/p06_calc.cpp."""
import math
import core
from num import f as hx

BIN = {"add": "({a}+{b})", "sub": "({a}-{b})", "mul": "({a}*{b})", "div": "({a}/{b})", "atan2": "atan2({a},{b})",
       "hypot": "hypot({a},{b})", "max": "max({a},{b})", "min": "min({a},{b})", "pow": "vpow({a},{b})"}


class Near(Exception):
    pass


def _vpow(a, b):
    if a != a or b != b:
        return math.nan
    if a == 0 and b <= 0:
        raise ValueError   # singular or a convention: not compared
    r = a ** b
    if isinstance(r, complex):
        raise ValueError
    return r


def _pw(c, a, e):
    if c == 0:
        return 0.0
    if a == 0 and e != int(e):
        raise ValueError
    r = c * a ** e
    if isinstance(r, complex):
        raise ValueError
    return r


def _vpowv(a, b):
    if not a > 0:
        raise ValueError
    return _vpow(a, b)


def _atan2(a, b):
    if a == 0 and b <= 0:
        raise Near   # the branch cut and the origin: the sign of a zero decides
    return math.atan2(a, b)


class Ev:
    """One program; values and derivatives of every node at a point."""

    def __init__(self, row, nv):
        self.row, self.nv = row, nv
        self.ties, self.conv = set(), {"m": 1.0, "s": 1.0}
        self.ns = {k: getattr(math, k) for k in ("acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp", "log", "log10",
                                                   "sin", "sinh", "sqrt", "tan", "tanh", "atan2", "hypot") if hasattr(math, k)}
        self.ns.setdefault("cbrt", lambda a: math.copysign(abs(a) ** (1 / 3), a))
        self.ns.update(abs=abs, vpowv=_vpowv, atan2=_atan2, max=lambda a, b: math.nan if a != a or b != b else max(a, b),
                       min=lambda a, b: math.nan if a != a or b != b else min(a, b), vpow=_vpow, pw=_pw,
                       sign=lambda a: a if a != a else float((a > 0) - (a < 0)),
                       TWO_OVER_SQRT_PI=2 / math.sqrt(math.pi), LN10=math.log(10), sq2=lambda a, b: a * a + b * b,
                       first=self.first, sgn=self.sgn, calm=lambda a: 1.0 if abs(a) <= 300 else math.nan, nan=math.nan)
        vl, dl = [], []
        for i, (op, a, b, c) in enumerate(row["p"], 1):
            va, vb, vc = f"v{a}", f"v{b}", f"v{c}"
            if op == "x":
                e = f"x{a}"
            elif op in "cki":
                e = repr(a / b)
            elif op == "hypot3":
                e = f"hypot({va},{vb},{vc})"
            elif op == "pow" and any(row["dep"][b - 1]):   # a varying exponent needs a positive base
                e = f"vpowv({va},{vb})"
            elif op in BIN:
                e = BIN[op].format(a=va, b=vb)
            elif op == "neg":
                e = f"(-{va})"
            elif op == "pos":
                e = va
            else:
                e = f"{op}({va})"
            vl.append((f"v{i}", e))
            for k in range(1, nv + 1):
                t = row["d"][i - 1][k - 1]
                if t:
                    dl.append((f"d{i}_{k}", t))
                for l in range(1, k + 1):
                    t = row["h"][i - 1][k - 1][l - 1]
                    if t:
                        dl.append((f"h{i}_{k}_{l}", t))
        self.lines = vl + dl
        self.code = compile("\n".join(f"{n}={e}" for n, e in self.lines), "<prog>", "exec")

    def first(self, a, b):
        if a != a or b != b:
            raise Near
        if a == b:
            self.ties.add("m")
            return self.conv["m"]
        if abs(a - b) < 1e-9 * (1 + abs(a) + abs(b)):
            raise Near
        return 1.0 if a > b else 0.0

    def sgn(self, a):
        if a != a:
            raise Near
        if a == 0:
            self.ties.add("s")
            return self.conv["s"]
        if abs(a) < 1e-9:
            raise Near
        return 1.0 if a > 0 else -1.0

    def _run(self, x):
        env = dict(self.ns)
        for k, v in enumerate(x, 1):
            env[f"x{k}"] = v
        try:
            exec(self.code, env)
        except (ValueError, ZeroDivisionError, OverflowError, Near):
            for n, e in self.lines:
                try:
                    env[n] = eval(e, env)
                    if isinstance(env[n], complex):
                        env[n] = math.nan
                except (ValueError, ZeroDivisionError, OverflowError, Near):
                    env[n] = math.nan
        return env

    def at(self, x, abs_ties):
        """-> (env, ranges) where env maps names to numbers (nan = not compared)."""
        self.ties.clear()
        self.conv = {"m": 1.0, "s": 1.0}
        e = self._run(x)
        names = [n for n, _ in self.lines]
        out = {n: (e[n], e[n]) for n in names}
        ties = set(self.ties)
        if ties:
            if "s" in ties and not abs_ties:
                for n in names:
                    if n[0] != "v":
                        out[n] = (math.nan, math.nan)
                return out
            for m in ((0.0, 1.0) if "m" in ties else (1.0,)):
                for s in ((-1.0, 1.0) if "s" in ties else (1.0,)):
                    self.conv = {"m": m, "s": s}
                    e2 = self._run(x)
                    for n in names:
                        if n[0] == "v":
                            continue
                        lo, hi = out[n]
                        if math.isnan(e2[n]) or math.isnan(lo):
                            out[n] = (math.nan, math.nan)
                        else:
                            out[n] = (min(lo, e2[n]), max(hi, e2[n]))
            for n in names:   # second derivatives at a kink: only when the convention does not matter at all
                if n[0] == "h" and (out[n][0] != out[n][1] or "s" in ties):
                    out[n] = (math.nan, math.nan)
        return out


def prog_line(row):
    return "I " + " ".join(f"{op} {a} {b} {c}" for op, a, b, c in row["p"])


def mag(env):
    m = 1.0
    for lo, hi in env.values():
        if lo == lo and hi == hi:
            m = max(m, abs(lo), abs(hi))
    return m


def compare(e, g, c):
    """e: list of None | (lo, hi, tol); '|' separators must match."""
    if isinstance(e, str):
        return e == g
    t = g.split()
    if len(t) != len(e):
        return False
    for x, y in zip(e, t):
        if x == "|":
            if y != "|":
                return False
        elif x is None:
            continue
        else:
            try:
                v = float.fromhex(y)
            except ValueError:
                return False
            lo, hi, tol = x
            if not (lo - tol <= v <= hi + tol):
                return False
    return True


def tlc_rows(ck, mode, nv, total, shards=6, start=1):
    step = max(1, (total + shards - 1) // shards)
    jobs = [("Calc", dict(LO=a, HI=min(total, a + step - 1), NV=nv, MODE=f'"{mode}"', SEED=ck.seed % 400))
            for a in range(start, total + 1, step)]
    rows = []
    for r in ck.tlc_many(jobs, par=6, workers=2):
        rows += r.rows("C")
    rows.sort(key=lambda r: r["m"])
    return rows


def vals(env, names, tolr, m):
    out = []
    for n in names:
        if n == "0":
            out.append((0.0, 0.0, 0.0))
            continue
        lo, hi = env[n]
        if lo != lo or hi != hi or math.isinf(lo) or math.isinf(hi) or m > 1e6:
            out.append(None)
        else:
            out.append((lo, hi, tolr * m))
    return out


def cases(rows, nv, what, mode, rng):
    """what: subset of {'values', 'types', 'derivs'}."""
    out = []
    stats = {"compared": 0, "skipped": 0}
    for row in rows:
        ev = Ev(row, nv)
        n = len(row["p"])
        xs = [[a / b for a, b in p] for p in row["x"]]
        envs = [ev.at(x, mode == "level1") for x in xs]
        cmds, exps = ["N", prog_line(row)], ["ok", "ok"]
        if "types" in what:
            e = []
            for i in range(1, n + 1):
                t = row["t"][i - 1]
                if t:
                    e.append((t, t, 0))
                else:
                    e.append((lower_bound(row, i, nv, envs), 4, 0))
                stats["compared"] += 1
            cmds.append("T")
            exps.append(e)
        objs, anc = [], ancestors(row["p"])
        if "derivs" in what:
            outs = [o for o in row["outs"]]
            root = n
            for kind, sym, nodes, order in (("g", 1, [root], row["o1"]), ("j", 1, outs, row["o2"]), ("h", 1, [root], row["o3"]),
                                            ("l", row["m"] % 2, [root], row["o1"]), ("g", 0, [outs[1]], [row["o2"][0]]),
                                            ("h", 1, [outs[-1]], [row["o3"][0]] if row["m"] % 3 == 0 else row["o2"])):
                if mode == "level1" and kind == "j":
                    nodes = [root, 1, root]
                objs.append((kind, sym, nodes, order))
            for kind, sym, nodes, order in objs:
                cmds.append(f"D {kind} {sym} {len(nodes)} {' '.join(map(str, nodes))} {len(order)} {' '.join(map(str, order))}")
                exps.append("ok")
        for x, env in zip(xs, envs):
            cmds.append("P " + " ".join(hx(v) for v in x))
            exps.append("ok")
            mv = max([1.0] + [abs(env[f"v{i}"][0]) for i in range(1, n + 1) if env[f"v{i}"][0] == env[f"v{i}"][0] and not math.isinf(env[f"v{i}"][0])])
            if "values" in what:
                order = list(range(1, n + 1)) if mode != "level1" else [n, 1, n]
                rng.shuffle(order)
                cmds.append("V " + " ".join(map(str, order)))
                exps.append(vals(env, [f"v{i}" for i in order], 1e-12, mv))
            if "derivs" in what:
                m = mag(env)
                idx = list(range(len(objs)))
                rng.shuffle(idx)
                for o in idx + idx[:1]:
                    kind, sym, nodes, order = objs[o]
                    names = []
                    if kind in "gj":
                        for i in nodes:
                            for k in order:
                                names.append(f"d{i}_{k}" if row["d"][i - 1][k - 1] else "0")
                        num, symn = names, names
                    else:
                        i = nodes[0]
                        num, symn = [], []
                        for r, k in enumerate(order):
                            for c, l in enumerate(order):
                                a, b = max(k, l), min(k, l)
                                nm = f"h{i}_{a}_{b}" if row["h"][i - 1][a - 1][b - 1] else "0"
                                symn.append(nm)
                                num.append("0" if kind == "l" and c > r else nm)
                    # where the value itself is singular or undefined nothing is asked
                    ok = all(regular(env, row, a, "v" + ("d" if kind in "gj" else "dh")) for i in nodes for a in anc[i])
                    e = vals(env, num, 1e-8, m) if ok else [None] * len(num)
                    if sym:
                        e = e + ["|"] + (vals(env, symn, 1e-8, m) if ok else [None] * len(symn))
                    cmds.append(f"E {o}")
                    exps.append(e)
                    for z in e:
                        if z is None:
                            stats["skipped"] += 1
                        else:
                            stats["compared"] += 1
        out.append(core.Case(cmds, exps, {"mode": mode, "program": row["p"], "m": row["m"]}))
    return out, stats


def ancestors(p):
    anc = {}
    for i, (op, a, b, c) in enumerate(p, 1):
        anc[i] = {i}
        if op not in ("x", "c", "k", "i"):
            for j in (a, b, c):
                if j:
                    anc[i] |= anc[j]
    return anc


def regular(env, row, i, kinds):
    """Is node i free of singular values / derivatives at this point?"""
    for n, (lo, hi) in env.items():
        if n[0] in kinds and n[1:].split("_")[0] == str(i) and (lo != lo or hi != hi):
            return False
    return True


def lower_bound(row, i, nv, envs):
    """The least degree class consistent with the exact derivatives at the sampled points."""
    lb = 1
    ds, hs, vs = {}, {}, []
    for env in envs:
        m = mag(env)
        if m > 1e5:
            continue
        v = env[f"v{i}"]
        if v[0] != v[0]:
            continue
        vs.append((v[0], m))
        for k in range(1, nv + 1):
            if row["d"][i - 1][k - 1]:
                lo, hi = env[f"d{i}_{k}"]
                if lo == hi:
                    ds.setdefault(k, []).append((lo, m))
            for l in range(1, k + 1):
                if row["h"][i - 1][k - 1][l - 1]:
                    lo, hi = env[f"h{i}_{k}_{l}"]
                    if lo == hi:
                        hs.setdefault((k, l), []).append((lo, m))

    def differ(s):
        return any(abs(a - b) > 1e-6 * max(m1, m2) for a, m1 in s for b, m2 in s)
    if differ(vs) or any(abs(d) > 1e-6 * m for s in ds.values() for d, m in s):
        lb = 2
    if any(differ(s) for s in ds.values()) or any(abs(h) > 1e-6 * m for s in hs.values() for h, m in s):
        lb = 3
    if any(differ(s) for s in hs.values()):
        lb = 4
    return lb
