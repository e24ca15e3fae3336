"""P10: memory pool and expression release (spec/Pool.tla, spec/Deep.tla, spec/Hist.tla)."""
import core, hist, num


def cmp_pool(e, g, c):
    if isinstance(e, str):
        return e == g
    t = g.split()
    if e[0] == "pool":
        # status, blocks in use, regions that served blocks (at most the specified chunks), identity
        return len(t) == 5 and t[0] == "ok" and int(t[1]) == e[1] and int(t[2]) <= e[2] and t[3:] == ["1", "0"]
    if e[0] == "deep":
        if len(t) != 5 or int(t[4]) != 0:
            return False
        v, gx, gy = e[1]
        val = [float.fromhex(x) for x in t[:4]]
        return val[0] == v and val[1] == v and (not e[2] or ((gx == -9 or val[2] == gx) and (gy == -9 or val[3] == gy)))
    return False


def run(ck):
    exe, hx = core.build_many([dict(name="p10_pool", lib=core.AD_SRC, flags=core.ASAN),
                               dict(name="p09_hist", lib=core.AD_SRC, flags=core.ASAN)])
    # pool state graph: every transition, plus long random walks
    cfgs = [dict(B=1, MaxLive=4, MaxChunks=3, Sizes="{48, 56}"), dict(B=2, MaxLive=5, MaxChunks=2, Sizes="{48, 56}"),
            dict(B=3, MaxLive=5, MaxChunks=2, Sizes="{16, 80}"), dict(B=2, MaxLive=5, MaxChunks=3, Sizes="{56, 56}"),
            dict(B=1, MaxLive=5, MaxChunks=4, Sizes="{8, 8}")]
    if ck.thorough:
        cfgs += [dict(B=2, MaxLive=7, MaxChunks=3, Sizes="{48, 56}"), dict(B=4, MaxLive=7, MaxChunks=2, Sizes="{40, 200}")]
    cases = []
    for cfg, r in zip(cfgs, ck.tlc_many([("Pool", c) for c in cfgs])):
        g = core.Graph(r.rows("E"))
        sizes = sorted({int(x) for x in cfg["Sizes"].strip("{}").split(",")})
        init = {"live": [], "ch": [0, 0], "home": 0, "use": 0, "total": 0}
        walks = g.cover(init) + g.random_walks(init, 400 if ck.thorough else 60, 120, ck.rng)
        for w in walks:
            cmds, exps = [f"N {cfg['B']}"], ["ok"]
            for a, t in w:
                s = g.states[t]
                cmds.append(f"{a[0]} {a[1]}")
                exps.append(("pool", s["use"], s["total"]))
            cases.append(core.Case(cmds, exps, {"blocks_per_chunk": cfg["B"]}))
    ck.cases(exe, cases, compare=cmp_pool, what="memory pool", timeout=300)
    # deep and wide expressions on a small stack
    depths = "{3, 1000, 300000}" if not ck.thorough else "{1, 2, 3, 50, 1000, 300000, 1000000}"
    rows = sorted(ck.tlc("Deep", consts=dict(Depths=depths)).rows("D"), key=lambda r: str(r["c"]))
    big = [r for r in rows if r["c"]["n"] > 2000]
    small = [r for r in rows if r["c"]["n"] <= 2000]
    if not ck.thorough:
        ck.rng.shuffle(big)
        seen, keep = set(), []
        for r in big:   # every shape with every release order, and every shape with every derivative kind
            k1, k2 = (r["c"]["s"], r["c"]["o"]), (r["c"]["s"], r["c"]["d"], 1)
            if k1 not in seen or k2 not in seen:
                seen |= {k1, k2}
                keep.append(r)
        big = keep
    cs = []
    for r in small + big:
        c = r["c"]
        cs.append(core.Case([f"D {c['s']} {c['n']} {c['d']} {c['o']} {r['x']}"],
                            [("deep", r["e"], c["d"] in ("grad", "gradsym", "jac"))], c))
    ck.rng.shuffle(cs)
    ck.cases(exe, cs, compare=cmp_pool, what="deep expression (512 KiB stack)", timeout=600)
    # several scalar types share the thread's pool
    cs = [core.Case([f"X {k}"], ["15 4 " * 0 + " ".join(["15", "5"] * 6 + ["2.25", "6.25", "12.25", "0"])], {"order": k}) for k in range(21)]
    for c in cs:
        c.label = {"scalar types": c.cmds}
        # each order in a fresh process: what the pool saw first matters
        ck.cases(exe, [c], procs=1, what="mixed scalar types in one pool")
    # histories: everything comes back
    rows = hist.rows(ck, 6000 if ck.thorough else 800, 60 if ck.thorough else 30)
    ck.cases(hx, hist.cases(rows, 5, 3), compare=hist.compare, what="history of expressions and derivative objects")
    ck.extra["deep_shapes"] = len(small) + len(big)
    ck.assumptions += ["blocks are judged at sizes the specification enumerates", "stack of 512 KiB stands for 'not proportional to depth'"]
