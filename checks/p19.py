"""P19: optimality error and its scale invariance (spec/KKT.tla)."""
import math
import core, num
from num import vec, mat, dy


def run(ck):
    exe = core.build("util_num")
    r = ck.tlc("KKT", consts=dict(NS=20000 if ck.thorough else 2500, SEED=ck.seed % 400))
    cases = []
    for row in r.rows("V"):
        v = row["v"]
        n, me, mi, kind = v["n"], v["me"], v["mi"], v["kind"]
        inf, one = row["inf"][0] / row["inf"][1], float(row["one"])
        if row["pc"] == "orig":
            q, f = v, float
            heads = ["- ", "id "]   # plain; unscaled with identity scaling
        else:
            q, f = row["s"], dy
            heads = [f"s {num.f(2.0 ** v['kf'])} {vec([2.0 ** k for k in v['ke']])} {vec([2.0 ** k for k in v['ki']])} "]
        V = lambda xs: vec([f(x) for x in xs])
        # explicit zeros are stored for some samples
        M = lambda A: mat([[f(x) for x in row_] for row_ in A], n,
                          lambda a, b: f(A[a][b]) != 0 or (a + b + v["mu"]) % 3 == 0, len(A))
        body = V(q["g"])
        if kind != "newton":
            body += f" {M(q['Ae'])} {V(q['ce'])} {V(q['y'])}"
        if kind == "ipm":
            body += f" {M(q['Ai'])} {V(q['ci'])} {V(q['s'])} {V(q['z'])} {num.f(f(q['mu']))}"
        for h in heads:
            for op, e in (("kktinf", inf), ("kktone", one)):
                cases.append(core.Case([f"{op} d {kind} {h}{body}"], [e]))
                if len(cases) % 7 == 0:
                    cases.append(core.Case([f"{op} f {kind} {h}{body}"], [("f", e)]))
    magnitudes(ck, cases)
    cases.sort(key=lambda c: c.cmds)

    def cmp(e, g, c):
        if len(e) == 3 if isinstance(e, tuple) else False:
            return num.close(float(g), e[1], 1e-9 if e[0] == "d" else 1e-4, 0 if e[0] == "d" else 1e-40)
        if isinstance(e, tuple):
            return num.close(float(g), e[1], 1e-5, 1e-5)
        return num.close(float(g), e, 1e-12)
    ck.cases(exe, cases, compare=cmp, what="optimality error")
    ck.assumptions.append("sampled integer problems with up to 3 variables and 3+3 constraints; scale factors are powers of two so that scaling is exact")


def magnitudes(ck, cases):
    """spec/KKTMag.tla: the same error over magnitudes"""
    n = 20000 if ck.thorough else 4000
    for r in ck.tlc_many([("KKTMag", dict(SEED=ck.seed % 400, LO=k * n // 4 + 1, HI=(k + 1) * n // 4)) for k in range(4)], par=4, workers=1):
        for row in r.rows("V"):
            v, h = row["v"], row["h"]
            V = lambda xs: vec([dy(x) for x in xs])
            M = lambda m: mat([[0.0] * v["n"]] * m, v["n"], lambda a, b: (a + b + v["mu"]) % 3 == 0, m)
            head = "id" if v["ident"] else f"s {num.f(2.0 ** v['kf'])} {vec([2.0 ** k for k in v['ke']])} {vec([2.0 ** k for k in v['ki']])}"
            body = f"{head} {V(h['g'])}"
            if v["mi"] == 0 and v["me"] == 0:
                body = "newton " + body
            elif v["mi"] == 0:
                body = f"sqp {body} {M(v['me'])} {V(h['ce'])} {V(h['y'])}"
            else:
                body = f"ipm {body} {M(v['me'])} {V(h['ce'])} {V(h['y'])} {M(v['mi'])} {V(h['ci'])} {V(h['s'])} {V(h['z'])} {num.f(dy(h['mu']))}"
            small = all(abs(v[k]) <= 80 for k in ("eg", "ec", "ey", "es", "ez")) and abs(v["es"] + v["ez"]) <= 80
            for op, e in (("kktinf", row["inf"]), ("kktone", row["one"])):
                cases.append(core.Case([f"{op} d {body}"], [("d", math.ldexp(e[0] / e[1], e[2]), "mag")]))
                if small and len(cases) % 3 == 0:
                    cases.append(core.Case([f"{op} f {body}"], [("f", math.ldexp(e[0] / e[1], e[2]), "mag")]))
