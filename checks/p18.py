"""P18: regularised factorisation (spec/RegLoop.tla with RegDiag, Reg2, RegMinor; InertiaMC)."""
import core, num

EPS = 2.0 ** -52
FEPS = 2.0 ** -23


def shift(s):
    k, e, h = s
    if k == 0:
        return 0.0
    b = 1.0 if k == 1 else EPS
    return b * 10.0 ** e / 2.0 ** h


def diag(m):
    return [s * 3 * 10.0 ** p if s else 0.0 for s, p in m]


def cmp(e, g, c):
    if isinstance(e, str):
        return e == g
    t = g.split()
    if len(t) != 4:
        return False
    d, gm, good = float(t[1]), float(t[2]), int(t[3])
    if e["kind"] == "exact":
        return (t[0] == e["info"] and num.close(d, e["d"], 1e-9) and num.close(gm, e["g"], 1e-9)
                and good == (1 if e["info"] == "ok" else -1))
    if e["kind"] == "plain":
        return t[0] == "ok" and d == 0 and gm == 0 and good == 1
    if e["kind"] == "shifted":   # wrong signature: a shift is needed, or failure
        return (t[0] == "fail") or (d >= 0 and gm >= 0 and d + gm > 0 and good == 1 and sig_ok(e, d, gm))
    return True


def sig_ok(e, d, g):
    """Signature of the shifted matrix by exact rational elimination (symmetric, with 2x2 fallback by minors)."""
    from fractions import Fraction as F
    A = [[F(x) for x in r] for r in e["A"]]
    n, m = e["n"], e["m"]
    for k in range(n + m):
        A[k][k] += F(d) if k < n else -F(g)
    N = n + m
    p = q = 0
    idx = list(range(N))
    while idx:
        k = max(idx, key=lambda i: abs(A[i][i]))
        if A[k][k] == 0:
            return all(A[i][j] == 0 for i in idx for j in idx) is False and False
        p, q = (p + 1, q) if A[k][k] > 0 else (p, q + 1)
        idx.remove(k)
        for i in idx:
            for j in idx:
                A[i][j] -= A[i][k] * A[k][j] / A[k][k] if not (i == k or j == k) else 0
    return p == n and q == m


def lower(A, full=False):
    n = len(A)
    return num.mat(A, n, lambda r, c: r >= c and (r == c or full or A[r][c] != 0))


def graph_cases(ck, r, kinds, enc, nv, ne, gz):
    g = core.Graph(r.rows("E"))
    init = {"p": [0, 0, 0], "l": 0}
    walks = g.cover(init) + g.random_walks(init, 400 if ck.thorough else 60, 40, ck.rng)
    ck.extra["edges_covered"] = ck.extra.get("edges_covered", 0) + g.nedges
    cases = []
    for kind in kinds:
        for i, w in enumerate(walks):
            for fmt in ("lf" if ck.thorough else "lf"[i % 2]):
                cmds = [f"new {kind} {nv} {ne} {'0' if gz else '-'}"]
                exps = ["new"]
                for a, t in w:
                    cmds.append(f"compute {fmt} {enc(a['m'])}")
                    exps.append({"kind": "exact", "info": a["info"], "d": shift(a["d"]), "g": shift(a["g"])})
                cases.append(core.Case(cmds, exps))
    return cases


def run(ck):
    exe = core.build("util_num")
    jobs = []
    dl = lambda m: lower([[x if i == j else 0 for j in range(len(m))] for i, x in enumerate(diag(m))])
    dims = [(1, 1), (2, 0), (0, 1), (2, 1)] + ([(1, 2), (3, 0), (2, 2)] if ck.thorough else [])
    for sparse, kinds in (("FALSE", ("dense", "regd")), ("TRUE", ("sparse", "regs"))):
        for gz in (False, True):
            for nv, ne in dims:
                for ents, h, ln in (("EntsA", 2, 2), ("EntsB", 2, 2)) if nv + ne < 3 else (("EntsD", 1, 2), ("EntsE", 0, 1)):
                    if nv + ne > 3 and ents == "EntsE":
                        continue
                    if not ck.thorough and nv + ne < 3 and (nv, ne) != (1, 1) and ents == "EntsA":
                        continue
                    jobs.append(("RegDiag", dict(NV=nv, NE=ne, Sparse=sparse, GammaMinZero=str(gz).upper(), Ents=ents,
                                                 MaxH=h, MaxLen=ln + (1 if ck.thorough else 0)), kinds, dl, nv, ne, gz))
            for nv, ne in ((2, 0), (1, 1)):
                jobs.append(("Reg2", dict(NV=nv, NE=ne, Sparse=sparse, GammaMinZero=str(gz).upper(),
                                          Range=3 if ck.thorough else 2, SparsePivot=1),
                             kinds, lambda m: lower([[m[0], 0], [m[1], m[2]]], True), nv, ne, gz))
        # long decay of the shift down to its floor and back
        jobs.append(("RegDiag", dict(NV=1, NE=0, Sparse=sparse, Ents="EntsC", MaxH=60, MaxLen=70), kinds,
                     lambda m: lower([[0.0]]), 1, 0, False))
    rs = ck.tlc_many(jobs, par=6, workers=1, heap="1g")
    cases = []
    for r, (_, _, kinds, enc, nv, ne, gz) in zip(rs, jobs):
        cases += graph_cases(ck, r, kinds, enc, nv, ne, gz)
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, compare=cmp, what="regularised factorisation")
    r = ck.tlc("RegMinor", consts=dict(NS=30000 if ck.thorough else 3000, SEED=ck.seed % 400))
    cases = []
    for v in r.rows("V"):
        if v["n"] + v["m"] == 0:
            continue
        for kind in ("dense", "sparse", "regd", "regs"):
            e = {"kind": "plain" if v["plain"] else "shifted", "A": v["A"], "n": v["n"], "m": v["m"]}
            ind = {"kind": "any"}
            N = v["n"] + v["m"]
            cmds = [f"new {kind} {v['n']} {v['m']} -"]
            exps = ["new"]
            if v["hist"]:   # an indefinite predecessor with the same pattern leaves shifts behind
                M = [[-1 if i == j else 0 for j in range(N)] for i in range(N)]
                cmds.append("compute l " + num.mat(M, N, lambda r_, c: r_ >= c and (r_ == c or v["A"][r_][c] != 0)))
                exps.append(ind)
            cmds.append("compute l " + lower(v["A"]))
            exps.append(e)
            cases.append(core.Case(cmds, exps))
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, compare=cmp, what="factorisation of a regular matrix")
    # non-finite matrices must end in failure or a non-crashing answer, never hang
    cases = []
    for kind in ("dense", "sparse", "regd", "regs"):
        for bad in ("nan", "inf", "-inf"):
            for pos in range(3):
                ent = [[1, 0], [1, 0 if pos != 2 else bad]]
                A = [[bad if pos == 0 else 2, 0], [bad if pos == 1 else 1, bad if pos == 2 else -1]]
                cmds = [f"new {kind} 1 1 -", "compute l " + num.mat(A, 2, lambda r_, c: r_ >= c)]
                cases.append(core.Case(cmds, ["new", {"kind": "any"}]))
    ck.cases(exe, cases, compare=cmp, what="non-finite matrix", timeout=60)
    # inertia
    r = ck.tlc("InertiaMC", consts=dict(N=4 if ck.thorough else 3))
    cases = []
    for v in r.rows("V"):
        for t, eps, den in (("d", EPS, 5e-324), ("f", FEPS, 2.0 ** -149)):
            rank = [0.0, den, eps / 2, eps, eps * (1 + eps), 1.0, float("inf")]
            vals = [-0.0 if x == 100 else (rank[abs(x)] if x >= 0 else -rank[-x]) for x in v["v"]]
            for mode in ("vec", "diag"):
                if len(vals) > 2 and ck.rng.random() < 0.6:
                    continue
                if mode == "diag" and any(abs(x) == float("inf") for x in vals):
                    continue   # building the matrix itself would not be exact
                cases.append(core.Case([f"inertia {t} {mode} {num.vec(vals)}"], [f"{v['p']} {v['n']} {v['z']}"]))
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, what="sign counts")
    ck.assumptions.append("outside the exactly modelled families (diagonal of any magnitude, 2x2 integers, integers with nonzero principal minors) only the postcondition is checked")
