"""P20: automatic scaling, sparse norms, finiteness (spec/Scaling.tla)."""
import math
import core, num
from num import vec, mat

INF, NAN = 1000001, 1000003


def val(x):
    return math.copysign(math.inf, x) if abs(x) == INF else math.nan if abs(x) == NAN else float(x)


def parse(g):
    g = g.replace("]", "").split("[")
    return [[float(x) for x in p.split()] for p in g]


def run(ck):
    exe = core.build("util_num")
    r = ck.tlc("Scaling", consts=dict(NS=20000 if ck.thorough else 2500, SEED=ck.seed % 400))
    cases = []
    for v in r.rows("V"):
        n, kind = v["n"], v["kind"]
        me = v["me"] if kind != "newton" else 0
        mi = v["mi"] if kind == "ipm" else 0
        fr = lambda q: math.ldexp(q[0] / q[1], q[2])
        up = lambda A, e: [[math.ldexp(x, e) for x in row] for row in A]
        M = lambda A, S, m: mat(A, n, lambda a, b: S[a][b], m)
        t = "f" if len(cases) % 9 == 0 and max(map(abs, v["e"])) < 300 else "d"
        cmd = f"scal {t} {kind} {vec(up([v['g']], v['e'][0])[0])}"
        if kind != "newton":
            cmd += " " + M(up(v["Ae"], v["e"][1]), v["Aes"], v["me"])
        if kind == "ipm":
            cmd += " " + M(up(v["Ai"], v["e"][2]), v["Ais"], v["mi"])
        cases.append(core.Case([cmd], [("scal", t, fr(v["f"]), [fr(x) for x in v["de"][:me]], [fr(x) for x in v["di"][:mi]], v["id"])]))
        B = [[val(x) for x in row] for row in v["B"]]
        norms, mode = [val(x) for x in v["norms"]], v["mode"]
        fin = v["fin"]
        if mode == "vec":
            B = [row[:1] for row in B]
            norms = [abs(row[0]) if row[0] == row[0] else math.nan for row in B]
            fin = all(math.isfinite(row[0]) for row in B)
            m = mat(B, 1, lambda a, b: v["Bs"][a][b], len(B))
        else:
            m = mat(B, n, lambda a, b: v["Bs"][a][b], len(B))
        t2 = "f" if len(cases) % 5 == 0 else "d"
        cases.append(core.Case([f"norms {t2} {mode} {m}"], [("norms", norms, fin)]))
    for f, ce, ci in ((1, [], []), (0.5, [], []), (1, [1], []), (1, [], [1, 0.25]), (0.25, [0.5], [2])):
        cases.append(core.Case([f"scal d explicit {num.f(f)} {vec(ce)} {vec(ci)}"],
                               [("scal", "d", f, ce, ci, f == 1 and not ce and not ci)]))
    cases.append(core.Case(["scal d identity"], [("scal", "d", 1.0, [], [], True)]))
    cases.sort(key=lambda c: c.cmds)

    def cmp(e, g, c):
        p = parse(g)
        if e[0] == "norms":
            got, fin = p[1][:-1], bool(p[1][-1])
            return (fin == e[2] and len(got) == len(e[1])
                    and all(a == b for a, b in zip(got, e[1]) if b == b))   # a NaN row has no defined norm
        rel = 1e-6 if e[1] == "f" else 1e-14
        f, ce, ci, idn = p[0][0], p[1], p[2][:-1], bool(p[2][-1])
        want = [e[2]] + e[3] + e[4]
        got = [f] + ce + ci
        return (len(ce) == len(e[3]) and len(ci) == len(e[4]) and idn == e[5]
                and all(num.close(a, b, rel) and 0 < a <= 1 + 1e-15 if c.split()[2] != "explicit" else a == b
                        for a, b in zip(got, want)))
    ck.cases(exe, cases, compare=cmp, what="scaling/norms")
