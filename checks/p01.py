"""P01: every history of shared-handle operations (spec/Intrusive.tla)."""
import core


def enc(a):
    return f"{a['op']} {a['h']} {a.get('g', 0)} {a.get('o', 0)} {a.get('how', '-')}"


def obs(s, d):
    j = lambda v: "".join(f"{int(x)} " for x in v)
    return j(s["r"]) + "| " + j(s["n"]) + "| " + j(s["al"]) + "| " + j(s["c"]) + "| " + j(sorted(d))


def explore(ck, exe, consts, walks, length):
    r = ck.tlc("Intrusive", consts={**consts, "EMIT": "TRUE"})
    rows = [{"f": e["f"], "a": dict(e["a"], _d=e["d"]), "t": e["t"]} for e in r.rows("E")]
    g = core.Graph(rows)
    nr = int(consts["NBase"]) + int(consts["NDer"])
    no = int(consts["OBase"]) + int(consts["ODer"])
    init = {"r": [-1] * nr, "n": [0] * no, "al": [False] * no, "c": [0] * no}
    ws = g.cover(init) + g.random_walks(init, walks, length, ck.rng)
    cases = []
    for w in ws:
        cmds, exps = ["reset 0"], [obs(init, [])]
        for a, t in w:
            cmds.append(enc(a))
            exps.append(obs(g.states[t], a["_d"]))
        cases.append(core.Case(cmds, exps))
    ck.cases(exe, cases, args=[str(consts[k]) for k in ("NBase", "NDer", "OBase", "ODer")],
             compare=lambda e, got, c: e.split() == got.split(), what="shared handle history")
    ck.extra.setdefault("edges_covered", 0)
    ck.extra["edges_covered"] += g.nedges


def run(ck):
    exe = core.build("p01_intrusive", flags=core.ASAN)
    explore(ck, exe, dict(NBase=2, NDer=1, OBase=1, ODer=1), 300, 80)
    explore(ck, exe, dict(NBase=3, NDer=0, OBase=2, ODer=0), 300, 120)
    explore(ck, exe, dict(NBase=2, NDer=0, OBase=3, ODer=0), 300, 120)
    explore(ck, exe, dict(NBase=1, NDer=1, OBase=1, ODer=2), 300, 120)
    if ck.thorough:
        explore(ck, exe, dict(NBase=2, NDer=1, OBase=2, ODer=1), 3000, 300)
        explore(ck, exe, dict(NBase=3, NDer=0, OBase=3, ODer=0), 3000, 300)
    # the design itself, in a larger world than is replayed
    ck.tlc("Intrusive", consts=dict(NBase=3, NDer=1, OBase=2, ODer=1, EMIT="FALSE"))
    ck.assumptions += ["handles, objects: bounded worlds of 2-4 root handles and 2-3 objects, each object holding one handle",
                       "single-threaded use, as the class documents"]
