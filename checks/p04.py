"""P04: slices = Python slices (spec/Slice.tla, SliceMC, SliceBig)."""
import core
N = 99999
BIG = {1000: 2**31 - 1, 999: 2**31 - 2, -1000: -2**31, -999: -2**31 + 1}


def enc(e, big=True):
    f = lambda v: "_" if v == N else str(BIG.get(v, v) if big else v)
    return f"{e['form']} {f(e['a'])} {f(e['b'])} {f(e['k'])} {e['len']}"


def run(ck):
    exe = core.build("p04_slice", flags=core.ASAN)
    cfgc = dict(Lens="LensT", Vals="ValsT", Steps="StepsT") if ck.thorough else {}
    r = ck.tlc("SliceMC", consts=cfgc)
    cases = []
    for e in r.rows("V"):
        v = " ".join(map(str, e["v"]))
        exp = f"{len(e['v'])} : {v} ; {v}"
        cases.append(core.Case([enc(e)], [exp]))
    rb = ck.tlc("SliceBig")
    for e in rb.rows("V"):
        n, i, k = e["n"], e["first"], 1 if e["k"] == N else e["k"]
        if n <= 64:
            v = " ".join(str(i + q * k) for q in range(n))
            exp = f"{n} : {v} ; {v}"
        else:
            exp = f"{n} : {i} {i + (n-1)*k}"
        cases.append(core.Case([enc(e, False)], [exp]))
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, compare=lambda e, g, c: e.split() == g.split(), what="slice")
    ck.extra["exhaustive"] = True
    ck.assumptions.append("bounds far beyond the length are represented by INT_MAX, INT_MAX-1, INT_MIN, INT_MIN+1 and, for huge lengths, a grid near 2^30 and 2^31")
