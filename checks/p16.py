"""P16: step rule (spec/BoundaryRule.tla); interior iterates (spec/Solver.tla, SolverTrace.tla)."""
import math
import core, num, solves


def boundary(ck):
    exe = core.build("util_num")
    rs = ck.tlc_many([("BoundaryRuleMC", {}),
                      ("BoundaryRuleMC", dict(N=3 if ck.thorough else 2, Xs="XsB", Ps="PsB", AnyOrder="FALSE"))] +
                     ([("BoundaryRuleMC", dict(N=3, AnyOrder="TRUE"))] if ck.thorough else
                      [("BoundaryRuleMC", dict(N=3, AnyOrder="FALSE"))]), par=3, workers=2, heap="4g")
    cases, seen = [], set()
    for r in rs:
        for v in r.rows("V"):
            k = (tuple(v["x"]), tuple(v["p"]), tuple(v["tau"]))
            if k in seen:
                continue
            seen.add(k)
            a, tau = v["a"][0] / v["a"][1], v["tau"][0] / v["tau"][1]
            sc = 2.0 ** ck.rng.choice([0, 0, 1, -30, 40, -300])
            if v["x"]:   # the rule only depends on ratios
                cases.append(core.Case([f"ftb d {num.vec([x * sc for x in v['x']])} {num.vec([p * sc for p in v['p']])} {num.f(tau)}"], [("d", a)]))
            if not v["x"] or ck.rng.random() < 0.1:
                cases.append(core.Case([f"ftb f {num.vec(v['x'])} {num.vec(v['p'])} {num.f(tau)}"], [("f", a)]))
                cases.append(core.Case([f"ftb d {num.vec(v['x'])} {num.vec(v['p'])} {num.f(tau)}"], [("d", a)]))
    for v in magnitudes(ck).rows("V"):
        ty = "f" if v["fl"] else "d"
        a = v["a"][0] / v["a"][1]
        try:
            a = math.ldexp(a, v["a"][2])
        except OverflowError:
            raise AssertionError("a fraction above one")
        cases.append(core.Case([f"ftb {ty} {num.vec([num.dy(x) for x in v['x']])} {num.vec([num.dy(p) for p in v['p']])} {num.f(v['tau'][0] / v['tau'][1])}"], [(ty, a, v["coarse"])]))
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, what="fraction to the boundary",
             compare=same)


def same(e, g, c):
    """equal up to rounding; a fraction too small to be a number may come out as zero"""
    g, tiny = float(g), 2.0 ** (-1070 if e[0] == "d" else -145)
    return num.close(g, e[1], 1e-2 if e[2:] == (True,) else 1e-13 if e[0] == "d" else 1e-5, tiny) and g <= 1 and (g > 0 or e[1] < tiny)


def magnitudes(ck):
    n = 40000 if ck.thorough else 8000
    rs = ck.tlc_many([("BoundaryMag", dict(SEED=ck.seed % 400, LO=k * n // 4 + 1, HI=(k + 1) * n // 4)) for k in range(4)], par=4, workers=1)

    class All:
        rows = staticmethod(lambda t: [v for r in rs for v in r.rows(t)])
    return All


def run(ck):
    boundary(ck)
    solves.run(ck, "P16", 40000 if ck.thorough else 5000)
