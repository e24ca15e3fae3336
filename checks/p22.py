"""P22: simple bounds (spec/Bounds.tla, spec/Project.tla)."""
import math
import core, num

INF = float("inf")


def q(x, default):
    return default if not x else x[0] / x[1]


def eps(v, ty):
    return 2.0 ** -(12 if ty == "f" else (26, 30, 36, 42)[v["i"] % 4])


def q2(x, default, h):
    return default if not x else q(x[0], 0) + h * q(x[1], 0)


def text(v, ty):
    out = [str(v["n"])] + [str(x) for x in v["val"]] + [str(len(v["cs"]))]
    h = eps(v, ty)
    for s in v["cs"]:
        kd = "-" if s["kd"] in ("one", "two", "tie") else "none" if s["kd"] in ("none", "const") else s["kd"]
        e = s["e"] if ty == "d" else max(-30, min(s["e"], 25))
        w = s["w"] if e == 0 or s["w"] not in (5, 6) else s["w"] - 5       # these two mix in terms of size one
        m = lambda a: num.f(math.ldexp(a, e))
        out += [str(w)] + [m(a) for a in s["lin"]] + [m(s["c"] + h * s["d"]), kd, str(s["v"] - 1), str(s["u"] - 1), m(s["p"])]
    return " ".join(out)


def cmp(e, g, c):
    k, e = e
    try:
        p = [[float.fromhex(x) if "x" in x or "inf" in x else float(x) for x in s.split()] for s in g.split("|")]
    except ValueError:
        return False
    if k == "get":
        mask, lo, hi, conf, val = e
        pairs = [(int(a) + 1, int(b) + 1) for a, b in zip(p[2][::2], p[2][1::2])]
        true = {tuple(t) for c in conf for t in c}
        return (p[0] == [float(m) for m in mask] and p[1][::2] == lo and p[1][1::2] == hi and p[3] == val
                and all(t in true for t in pairs) and all(not c or any(tuple(t) in pairs for t in c) for c in conf))
    if k == "solve":
        bad, val = e
        return (int(p[0][0]) == -3) == bad and (not bad or (p[1] == val and p[0][1] == 0))
    rel, want, lo, hi = e
    return len(p[0]) == len(want) and all(
        abs(a - b) <= rel * max(1, abs(b)) and (a == l == h if l == h else l < a < h)
        for a, b, l, h in zip(p[0], want, lo, hi))


def run(ck):
    exe = core.build("p22_bounds", lib=core.LIB_SRC, flags=core.ASAN, opt="-O0")
    N = 24000 if ck.thorough else 4000
    M = N // 4
    S = ck.seed % 400
    shard = lambda m, n: [(m, dict(LO=a, HI=min(n, a + n // 4 - 1), SEED=S)) for a in range(1, n + 1, n // 4)]
    jobs = shard("Bounds", N) + shard("Project", M)
    rs = ck.tlc_many(jobs)
    B = sorted([v for r in rs[:4] for v in r.rows("V")], key=lambda v: v["i"])
    P = sorted([v for r in rs[4:] for v in r.rows("V")], key=lambda v: v["i"])
    cases, solves = [], []
    for k, v in enumerate(B):
        val = [float(x) for x in v["val"]]
        ty = 'f' if k % 5 == 0 else 'd'
        lo, hi = [q2(x, -INF, eps(v, ty)) for x in v["lo"]], [q2(x, INF, eps(v, ty)) for x in v["hi"]]
        cases.append(core.Case([f"get {ty} {text(v, ty)}"], [("get", (v["mask"], lo, hi, v["conf"], val))], {"constraints": v["cs"]}))
        # the solver is handed the same constraints (all-constant problems are not solved at all)
        if k % 2 == 0 and v["cs"]:
            solves.append(core.Case([f"solve d {v['cost']} {int(v['eq'])} {text(v, 'd')}"], [("solve", (v["bad"], val))], {"constraints": v["cs"]}))
    for k, v in enumerate(P):
        xs = v["xs"]
        lo, hi, want = [q(s["lo"], -INF) for s in xs], [q(s["hi"], INF) for s in xs], [q(s["r"], 0) for s in xs]
        t = "f" if k % 5 == 0 else "d"
        cases.append(core.Case([f"proj {t} {q(v['k1'], 0)} {q(v['k2'], 0)} {len(xs)} " + " ".join(f"{num.f(a)} {num.f(b)} {num.f(q(s['x'], 0))}" for a, b, s in zip(lo, hi, xs))],
                               [("proj", (1e-5 if t == "f" else 1e-13, want, lo, hi))], {"points": xs}))
    ck.extra.update(contradictory=sum(v["bad"] for v in B), bound_constraints=sum(sum(v["mask"]) for v in B), projected=sum(len(v["xs"]) for v in P))
    ck.cases(exe, cases, compare=cmp, what="bounds")
    ck.cases(exe, solves, compare=cmp, what="solving with bounds", timeout=400)
    ck.assumptions += ["coefficients are dyadic so that -b/a is exact", "linear means reported as linear (the soundness of the report is P07)"]
