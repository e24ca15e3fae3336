"""Replay cases for spec/Hist.tla: answers are compared exactly, in the field Z_p."""
from fractions import Fraction
import core
P = 46337


def residue(x):
    f = Fraction(float.fromhex(x))
    return f.numerator * pow(f.denominator, -1, P) % P


def compare(e, g, c):
    if isinstance(e, str):
        return e == g
    t = g.split()
    if c.startswith("type"):
        return len(t) == 1 and (e[0] == 0 or int(t[0]) == e[0])
    try:
        return len(t) == len(e) and all(residue(x) == y for x, y in zip(t, e))
    except (ValueError, OverflowError):
        return False


def flat(x):
    out = []
    for y in x:
        out.extend(flat(y) if isinstance(y, list) else [y])
    return out


def text(a):
    out = []
    for x in a:
        if isinstance(x, list):
            out.append(f"{len(x)} " + " ".join(map(str, x)))
        else:
            out.append(str(x))
    return " ".join(out)


def cases(rows, nh, no, keep=None):
    out = []
    for r in rows:
        cmds, exps = [f"N {nh} {no} {r['v'][0]} {r['v'][1]}"], ["ok"]
        for a, e in r["log"]:
            cmds.append(text(a))
            exps.append(flat(e) if a[0] in ("val", "type", "ev", "sym") else "ok")
        cmds.append("end")
        exps.append("0")
        out.append(core.Case(cmds, exps, {"history": r["m"]}))
    return out


def rows(ck, total, steps, mode="rand", nh=5, no=3, nx=4, shards=6):
    step = max(1, (total + shards - 1) // shards)
    jobs = [("Hist", dict(LO=a, HI=min(total, a + step - 1), STEPS=steps, MODE=f'"{mode}"', NH=nh, NO=no, NX=nx, SEED=ck.seed % 400))
            for a in range(1, total + 1, step)]
    out = []
    for r in ck.tlc_many(jobs, par=6, workers=2):
        out += r.rows("H")
    import json
    out.sort(key=lambda r: (r["m"], json.dumps(r["log"])))
    return out
