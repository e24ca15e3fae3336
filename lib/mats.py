"""Replay cases for spec/Mats.tla (matrices, views, algebra, constraints); values compared exactly in Z_p."""
import json
import core
from hist import P, residue


def tok(x):
    if isinstance(x, list):
        return " ".join(tok(y) for y in x)
    return "_" if x == 99999 else str(x)


def text(a):
    if a[0] == "cat":
        return f"cat {a[1]} {a[2]} {a[4]} " + tok(a[3])
    return tok(a).strip()


def same(vals, exp):
    return len(vals) == len(exp) and all(residue(v) == e for v, e in zip(vals, exp))


def compare(e, g, c):
    if isinstance(e, str):
        return e == g
    k, e = e
    try:
        if k == "ask":
            t = g.split()
            vals = t[1:-1]
            if len(vals) != len(e):
                return False
            f = [float.fromhex(v) for v in vals]
            if t[0] == "ge":
                return same(vals, e) and t[-1] == str(int(all(x >= 0 for x in f)))
            # an equation may be normalised either way round
            return all(residue(v) in (x, (core_p() - x) % P) for v, x in zip(vals, e)) and t[-1] == str(int(all(x == 0 for x in f)))
        R, C, v = e[0], e[1], e[2:]
        part = [p.split() for p in g.split("|")]
        if part[0] != [str(R), str(C), str(R * C)] or len(part) < 10:
            return False
        T = [v[r * C + q] for q in range(C) for r in range(R)]
        ok = all(same(p, v) for p in part[1:6]) and all(same(p, v[::-1]) for p in part[6:9])
        ok = ok and part[9][:2] == [str(C), str(R)] and same(part[9][2:], T)
        if len(part) > 10:
            ok = ok and len(part) == 13 and part[10][:2] == [str(R), str(C)] and same(part[10][2:], v) and same(part[11], v) and same(part[12], v)
        return ok
    except (ValueError, OverflowError, IndexError):
        return False


def core_p():
    return P


def cases(rows, nm=4, nv=4, nc=4):
    out = []
    for r in rows:
        cmds = [f"N {nm} {nv} {nc} {r['m'] % 7} " + " ".join(map(str, r["v"]))]
        exps = ["ok"]
        for a, e in r["log"]:
            cmds.append(text(a))
            exps.append((("ask" if a[0] == "ask" else "dump"), e) if a[0] in ("ask", "dump", "peek") else "ok")
        cmds.append("end")
        exps.append("0")
        out.append(core.Case(cmds, exps, {"program": r["m"]}))
    return out


def rows(ck, total, steps, mode, shards=6, base=0):
    step = max(1, (total + shards - 1) // shards)
    jobs = [("Mats", dict(LO=base + a, HI=base + min(total, a + step - 1), STEPS=steps, MODE=f'"{mode}"', SEED=ck.seed % 400))
            for a in range(1, total + 1, step)]
    out = []
    for r in ck.tlc_many(jobs, par=6, workers=2):
        out += r.rows("H")
    out.sort(key=lambda r: r["m"])
    return out


def run(ck, mode, total, steps, what, base=0):
    exe = core.build("p05_mats", lib=core.AD_SRC, flags=core.ASAN, opt="-O0")
    rs = rows(ck, total, steps, mode, base=base)
    kinds = {}
    for r in rs:
        for a, _ in r["log"]:
            kinds[a[0]] = kinds.get(a[0], 0) + 1
    ck.extra["actions"] = kinds
    ck.cases(exe, cases(rs), compare=compare, what=what, timeout=400)
