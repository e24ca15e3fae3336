"""P28: matrix algebra (spec/Mats.tla, menu "alg"); linear solves and exponentials (spec/LinAlg.tla)."""
import math
import core, mats


def near(e, g, c):
    tol, want = e
    try:
        got = [float(x) for x in g.split()]
    except ValueError:
        return False
    big = max([1.0] + [abs(w) for w in want])
    return len(got) == len(want) and all(abs(a - b) <= tol * big for a, b in zip(got, want))


def linear(ck, count, what="linear algebra", ops="SE"):
    exe = core.build("p28_linalg", lib=core.AD_SRC, eigen=True)
    rs = ck.tlc_many([("LinAlg", dict(SEED=ck.seed % 400, LO=k * count // 8 + 1, HI=(k + 1) * count // 8)) for k in range(8)], par=8, workers=1)
    t = lambda l: " ".join(map(str, l))
    cases = []
    for v in (v for r in rs for v in r.rows("S")):
        want = []
        for p in v["pts"]:
            want += p["x"] + [d for d, c in zip(p["da"], v["ca"]) if not c] + [d for d, c in zip(p["db"], v["cb"]) if not c]
        cmd = f"solve {v['n']} {v['q']} {t(v['out'])} {t(v['ca'])} {t(v['cb'])} {t(v['sa'])} {t(v['sb'])} {len(v['pts'])} " + " ".join(t(p["a"]) + " " + t(p["b"]) for p in v["pts"])
        cases.append(core.Case([cmd], [(1e-8, want)]))
    for v in (v for r in rs for v in r.rows("E")):
        if v["small"] and "E" in ops:
            want = [sum(e[k] / 6 * math.exp(w - 2) for w, e in enumerate(v["e"])) for k in range(v["n"] ** 2)]
            cases.append(core.Case([f"exp {v['n']} {t(v['c'])} {t(v['start'])} {t(v['a'])}"], [(1e-8, want)]))
    cases.sort(key=lambda c: c.cmds)
    ck.extra["linear_systems_and_exponentials"] = len(cases)
    ck.cases(exe, cases, compare=near, what=what)
    if "E" in ops:
        # exp() keeps the row order that suited the values it was built with
        e = math.exp
        moved = core.Case(["exp 2 0 0 0 0 1 -1 1 -1 -2 0 1 -1"], [(1e-8, [e(-2), 0, e(-1) - e(-2), e(-1)])])
        ck.cases(exe, [moved], compare=near, what="matrix exponential away from the values it was built with", on_mismatch=lambda *a: ck.known("exp-row-order"))


def run(ck):
    linear(ck, 8000 if ck.thorough else 1200)
    mats.run(ck, "alg", *((12000, 40) if ck.thorough else (1500, 25)), what="matrix program")
