"""P02: scope guards and timers (spec/ScopeGuard.tla, spec/Profiler.tla)."""
import core
U = 0.125


def guard_cases(ck, consts, nrand):
    r = ck.tlc("ScopeGuard", consts=consts)
    g = core.Graph(r.rows("E"))
    init = next(s for s in g.states if not any(x["on"] for x in s["s"]) and not any(s["f"]) and not any(s["m"]))
    cases = []
    ob = lambda s: [float(x) for x in (s["f"] + [0, 0, 0, 0])[:4]]
    for w in g.cover(init) + g.random_walks(init, nrand, 60, ck.rng):
        cmds, exps = ["reset"], [[0.0] * 4]
        for a, t in w:
            cmds.append(f"{a['op']} {a['s']} {a.get('i', a.get('t', 0))} {a.get('how', '-')}")
            exps.append(ob(g.states[t]))
        cases.append(core.Case(cmds, exps))
    return g, cases


def close(e, g, c):
    try:
        v = [x for x in g.split()]
        sc = [None if x == "s-" else float(x[1:]) for x in v if x.startswith("s")]
        v = [float(x) for x in v if not x.startswith("s")]
    except ValueError:
        return False
    ex, exs = e if isinstance(e, tuple) else (e, [])
    ok = lambda p, q: len(p) == len(q) and all(y is None or abs(x - y) <= 1e-9 for x, y in zip(p, q))
    return ok(ex, v) and ok(exs, sc)


def timer_cases(ck, kind, consts, nrand):
    r = ck.tlc("Profiler", consts={**consts, "KIND": f'"{kind}"'})
    g = core.Graph(r.rows("E"))
    init = next(s for s in g.states if not any(x["on"] for x in s["s"]) and all(x["n"] == 0 and not x["run"] for x in s["tm"]))

    def ob(s):
        o = []
        for i in range(2):
            t = s["tm"][i] if i < len(s["tm"]) else dict(n=0, cur=0, tot=0)
            if kind == "solve":
                o += [t["n"], t["cur"] * U, t["tot"] * U, t["tot"] * U / t["n"] if t["n"] else 0]
            else:
                o += [t["cur"] * U]
        sc = [s["tm"][x["t"] - 1]["cur"] * U for x in s["s"] if x["on"]] if kind == "solve" else []
        return (o, sc)
    cases = []
    for w in g.cover(init) + g.random_walks(init, nrand, 60, ck.rng):
        cmds, exps = ["reset"], [ob(init)]
        for a, t in w:
            op = a["op"]
            x, y = {"tick": (a.get("d"), 0), "start": (a.get("t"), 0), "stop": (a.get("t"), 0), "scope": (a.get("t"), a.get("s")),
                    "smove": (a.get("s"), a.get("u")), "sstop": (a.get("s"), 0), "send": (a.get("s"), 0),
                    "clone": (a.get("t"), 0)}[op]
            cmds.append(f"{op} {x} {y} {a.get('how', '-')}")
            exps.append(ob(g.states[t]))
        cases.append(core.Case(cmds, exps))
    return g, cases


def run(ck):
    exe = core.build("p02_scope", flags=core.ASAN)
    k = 20 if ck.thorough else 1
    g, c = guard_cases(ck, {"Slots": "{1, 2, 3}"} if not ck.thorough else {"Slots": "{1, 2, 3, 4}"}, 500 * k)
    ck.cases(exe, c, args=["guards"], compare=close, what="scope guard history")
    n = g.nedges
    for kind in ("solve", "setup"):
        for consts in (dict(MaxN=5 if ck.thorough else 3), dict(Timers="{1, 2}", MaxN=2 if ck.thorough else 1, MaxT=2, Slots="{1, 2, 3}")):
            g, c = timer_cases(ck, kind, consts, 500 * k)
            n += g.nedges
            ck.cases(exe, c, args=[kind], compare=close, what=f"{kind} timer history")
    ck.extra["edges_covered"] = n
    ck.assumptions.append("time comes from std::chrono::steady_clock, which the harness replaces by a scripted clock")
