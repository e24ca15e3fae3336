"""P23: transcription of optimal control problems (spec/Ocp.tla)."""
import core

M = {"transcription": 0, "collocation": 1, "shooting": 2}
TS = {"fixed": 0, "single": 1, "variable": 2}
q = lambda r: repr(r[0] / r[1])


def case(v):
    c = v["c"]
    if c["k"] == "bound":
        flat = [c["nu"], c["N"], c["m"], TS[c["ts"]], int(c["scalar"]), int(c["hasLo"]), int(c["hasHi"])] + c["lo"] + c["hi"] + \
            [x for r in c["tg"] for x in r] + [c["lim"], c["dlo"], c["dhi"]] + c["td"] + [c["dt0"]]
        return core.Case(["bound " + " ".join(map(str, flat))], [("near", [0] + [x for u, t in zip(c["U"], c["dt"]) for x in u + [t]])], {"case": v["i"]})
    p, T, N = c["p"], c["T"], c["p"]["N"]
    ns, nu = p["ns"], p["nu"]
    flat = lambda m: [x for r in m for x in r]
    point = lambda t: "set " + " ".join(map(q, flat(t["X"]) + flat(t["U"]) + t["dt"]))
    num = lambda rs: [a / b for a, b in rs]
    dt0 = T["dt"][0] if p["ts"] != "variable" else [5, 1]
    cmds = [" ".join(map(str, ["new", M[p["m"]], int(p["dyn"] == "discrete"), TS[p["ts"]], N, ns, nu, int(p["four"]), c["style"], q(dt0)] +
                         flat(p["A"]) + flat(p["B"]) + p["ct"] + p["ch"] + p["d"] + p["q"] + p["p"] + p["s"]))]
    ty = "0" if p["m"] == "shooting" else "2" if c["linear"] else None
    exps = [("new", f"X {ns}x{N + 1} U {nu}x{N + 1} DT 1x{N + 1} x0 {ns}x1 xN {ns}x1 type", ty,
             [x for k in range(N + 1) for x in [dt0[0] / dt0[1]] + [0] * (nu + (ns if p["m"] != "shooting" or k == 0 else 0))])]

    def add(cmd, exp):
        cmds.append(cmd)
        exps.append(exp)
    add(point(T), "ok")
    add("vals", ("exact", num(flat(T["X"]))))
    rows4 = [x for k in range(N + 1) for x in num([c["times"][k]]) + num(T["X"][k]) + num(T["U"][k]) + num([T["dt"][k]])]
    rows2 = [x for k in range(N + 1) for x in num(T["X"][k]) + num(T["U"][k])]
    add("each 1", ("exact", rows4))
    add("each 0", ("exact", rows2))
    if p["m"] != "shooting":
        if not c["far"]:
            add("feas", "yes")
        for b in c["bumps"]:
            add(point(b["T"]), "ok")
            add("feas", "yes" if b["ok"] else "no")
    if c["end"] != "none":
        add(point(T), "ok")
        x = T["X"][0 if c["end"] == "initial" else N]
        add(f"end {c['end']} {c['arg']} " + " ".join(map(q, x)), ("near", [0] + num(flat(T["X"]))))
    return core.Case(cmds, exps, {"case": v["i"]})


def near(e, g, tol=1e-3):
    try:
        g = [float(x) for x in g.split()]
    except ValueError:
        return False
    return len(e) == len(g) and all(abs(a - b) <= tol * (1 + abs(a)) for a, b in zip(e, g))


def compare(e, g, c):
    if isinstance(e, str):
        return e == g
    if e[0] == "exact":
        return near(e[1], g, 1e-9)
    if e[0] == "near":
        return near(e[1], g)
    head, _, vals = g.partition(" values ")
    head, _, ty = head.rpartition(" ")
    return head == e[1] and (e[2] is None or e[2] == ty) and near(e[3], vals, 0)


def cases(ck, count, per=250):
    rs = ck.tlc_many([("Ocp", dict(SEED=ck.seed % 400, LO=a, HI=min(count, a + per - 1))) for a in range(1, count + 1, per)])
    return [case(v) for v in sorted((v for r in rs for v in r.rows("V")), key=lambda v: v["i"])]


def run(ck):
    exe = core.build("p23_ocp", lib=core.LIB_SRC, eigen=True)
    cs = cases(ck, 20000 if ck.thorough else 3000)
    ck.extra["solved_trajectories"] = sum(c.startswith("end") for k in cs for c in k.cmds)
    ck.extra["feasibility_verdicts"] = sum(c == "feas" for k in cs for c in k.cmds)
    ck.cases(exe, cs, compare=compare, what="transcription")
    if ck.thorough:
        ck.cases(core.build("p23_ocp", lib=core.LIB_SRC, eigen=True, flags=core.ASAN), cs[::8], compare=compare, what="transcription, sanitized")
