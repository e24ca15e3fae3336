"""Rows of spec/Dyadic.tla as replay cases for harness/p06_calc.cpp."""
from fractions import Fraction
import core
from num import f as hx

REL = 2.0 ** -50


def rows(ck, per):
    total = 22 * 48
    step = (total + 3) // 4
    jobs = [("Dyadic", dict(LO=a, HI=min(total, a + step - 1), PER=per, SEED=ck.seed % 400)) for a in range(1, total + 1, step)]
    out, lim = [], []
    for r in ck.tlc_many(jobs, par=4, workers=2):
        out += r.rows("D")
        lim += r.rows("H")
    return sorted(out, key=lambda r: r["m"]), sorted(lim, key=lambda r: (r["op"], r["e"], str(r["x"])))


def num(o):
    """-> (lo, hi, tol) or None."""
    ok, terms = o
    if not ok:
        return None
    v = sum((Fraction(c) * (Fraction(2) ** e) for c, e in terms), Fraction(0))
    x = float(v)
    return (x, x, abs(x) * REL)


POINTS = [(1, 0, 0), (0, 0, 0), (-1, 0, 0), (1, -60, 0), (-1, -300, 0), (1, 90, 0), (1, 0, 1), (1, 0, -1), (3, -100, 0),
          (1, -2, 0), (-1, 150, 0), (2, 0, 0)]


def ins(i):
    return f"{i['op']} {i['a']} {i['b']} 0"


def cases(rows, what):
    out, n = [], 0
    for r in rows:
        c = r["c"]
        k = len(r["i4"])
        cmds = ["N", f"I x 1 0 0 {r['kind']} {c[0]} {c[1]} {c[2]} {ins(r['i3'])} " + " ".join(ins(i) for i in r["i4"])]
        exps = ["ok", "ok"]
        if "types" in what:
            cmds.append("T")
            exps.append([(2, 2, 0), (1, 1, 0), (r["least"], 4, 0)] + [None] * k)
            n += 1
        if "derivs" in what:
            for j in range(k + 1):
                cmds.append(f"D g 1 1 {3 + j} 1 1")
                exps.append("ok")
        if what & {"values", "derivs"}:
            for (a, b, d), p in zip(POINTS, r["pts"]):
                x = a * 2.0 ** b + d * 2.0 ** -50
                cmds.append("P " + hx(x))
                exps.append("ok")
                nodes = [(p["v"], p["d"])] + [tuple(q) for q in p["q"]]
                if "values" in what:
                    e = [num(v) for v, _ in nodes]
                    n += sum(z is not None for z in e)
                    cmds.append("V " + " ".join(str(3 + j) for j in range(k + 1)))
                    exps.append(e)
                if "derivs" in what:
                    for j, (_, d1) in enumerate(nodes):
                        e = num(d1)
                        if e is not None:
                            n += 1
                            cmds.append(f"E {j}")
                            exps.append([e, "|", e])
        out.append(core.Case(cmds, exps, {"program": [c, r["kind"], r["i3"], r["i4"]], "m": r["m"]}))
    return out, n


def limit_cases(lim, what):
    """Far-out arguments; the case label carries the operator so that a listed finding can be told apart."""
    out = []
    for r in lim:
        x, v, d, h = (num(r[k]) for k in "xvdh")
        z = [None if t is None else (t[0], t[1], max(t[2], 1e-25 if t[0] == 0 else 0)) for t in (v, d, h)]
        cmds, exps = ["N", f"I x 1 0 0 {r['op']} 1 0 0", "D g 1 1 2 1 1", "D h 1 1 2 1 1", "P " + hx(x[0])], ["ok"] * 5
        if "values" in what:
            cmds.append("V 2")
            exps.append([z[0]])
        if "derivs" in what:
            cmds += ["E 0", "E 1"]
            exps += [[z[1], "|", z[1]], [z[2], "|", z[2]]]
        out.append(core.Case(cmds, exps, {"program": [r["op"], x[0]], "m": 0}))
    return out
