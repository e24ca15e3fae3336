"""P03: callable references (spec/FunctionRef.tla)."""
import core


def ob(s):
    return f"{s['c'][0]} {s['c'][1]} {s['c'][2]} | {s['r'][0]} {s['r'][1]} {s['r'][2]}"


def run(ck):
    exe = core.build("p03_fref", flags=core.ASAN)
    r = ck.tlc("FunctionRef", consts={"MaxCalls": 2 if ck.thorough else 1})
    g = core.Graph(r.rows("E"))
    init = {"r": [0, 0, 0], "c": [0, 0, 0]}
    ws = g.cover(init)
    ck.extra["edges_covered"] = g.nedges
    for i, (sig, pal) in enumerate((("int", 0), ("int", 1), ("int", 2), ("int", 3), ("int", 4), ("int", 5), ("void", 0), ("move", 0), ("ref", 0))):
        w2 = ws + g.random_walks(init, 2000 if ck.thorough else 100, 80, ck.rng)
        cases = []
        for w in w2:
            cmds, exps = ["reset"], [ob(init)]
            for a, t in w:
                cmds.append(f"{a['op']} {a['r']} {a.get('q', a.get('c', 0))} {a.get('how', '-')}")
                exps.append(ob(g.states[t]))
            cases.append(core.Case(cmds, exps))
        ck.cases(exe, cases, args=[sig, str(pal)], compare=lambda e, got, c: e.split() == got.split(),
                 what=f"callable reference history ({sig}/{pal})")
    ck.assumptions.append("callables outlive the references; nine signature/callable-kind palettes of three callables each")
