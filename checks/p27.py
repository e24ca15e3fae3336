"""P27: start and end of feasibility restoration (spec/Restore.tla)."""
import json
import core, num, solves
from num import vec, mat, f


def nums(g):
    return [[float(x) for x in p.split()] for p in g.split(";")]


def units(ck):
    exe = core.build("p27_restore", flags=core.ASAN, eigen=True)
    r = ck.tlc("Restore", consts=dict(NS=30000 if ck.thorough else 3500, SEED=ck.seed % 400))
    cases = []
    M = lambda A, n: mat(A, n, lambda a, b: A[a][b] != 0, len(A))
    fr = lambda q: q[0] / q[1]
    for v in r.rows("V"):
        if v["k"] == "pn":
            sc = 2.0 ** ck.rng.choice([0, 0, 10, -20, -60, 40])   # violation and barrier scale together
            cmd = f"pn {vec([fr(q['c']) * sc for q in v['rows']])} {f(v['rho'])} {f(v['mu'] * sc)}"
            e = ("num", [[fr(q["p"]) * sc for q in v["rows"]], [fr(q["n"]) * sc for q in v["rows"]]], 1e-9)
        elif v["k"] == "trip":
            cmd = f"trip {v['ro']} {v['co']} {len(v['ms'])} " + " ".join(M(m, v["n"]) for m in v["ms"])
            e = ("num", [[7, 8, 9] + [x for t in v["t"] for x in t]], 0)
            cases.append(core.Case([f"dtrip {v['ro']} {v['co']} {vec(v['dg'])}"], [("num", [[x for t in v["dt"] for x in t]], 0)]))
        elif v["k"] == "eq":
            cmd = f"eq {vec(v['g'])} {M(v['A'], v['n'])}"
            e = ("num", [v["y"]], 1e-8)
        elif v["k"] == "dep":
            g = vec([x / 16 for x in v["g16"]])
            cmd = f"ipm {g} {M(v['Ae'], v['n'])} {M(v['Ai'], v['n'])} {vec(v['s'])} {f(v['mu'])}" if v["ipm"] else f"eq {g} {M(v['Ae'], v['n'])}"
            e = ("dep", len(v["Ae"]), [v["mu"] / s for s in v["s"]])
        elif v["k"] == "tiny":
            if any(q[0] == 0 for q in v["z"]):
                continue   # as below
            mu = 2.0 ** -v["e"]
            cmd = f"ipm {vec([x / 16 for x in v['g16']])} {M(v['Ae'], v['n'])} {M(v['Ai'], v['n'])} {vec(v['s'])} {f(mu)}"
            e = ("num", [v["y"], [{-1: 1e-10 * mu / s, 0: fr(q), 1: 1e10 * mu / s}[at] for q, at, s in zip(v["z"], v["at"], v["s"])]], 1e-8)
        else:
            cmd = f"ipm {vec([x / 16 for x in v['g16']])} {M(v['Ae'], v['n'])} {M(v['Ai'], v['n'])} {vec(v['s'])} {f(v['mu'])}"
            z = []
            for q, ng, s in zip(v["z"], v["neg"], v["s"]):
                lo = 1e-10 * v["mu"] / s
                z.append(lo if ng else fr(q))
            if any(q[0] == 0 for q in v["z"]):
                continue   # an estimate of exactly zero may round to either side of the clamp
            e = ("num", [v["y"], z], 1e-8)
        cases.append(core.Case([cmd], [e]))

    def cmp(e, g, c):
        got = nums(g)
        if e[0] == "dep":
            y, z = got[0], got[1] if e[2] else []
            return (len(y) == e[1] and len(z) == len(e[2]) and all(abs(x) <= 1e3 for x in y + z)
                    and all(1e-11 * w <= x <= 1e11 * w for x, w in zip(z, e[2])))
        if len(e[1]) == 1:
            got = got[:1]
        if len(got) != len(e[1]) or any(len(a) != len(b) for a, b in zip(got, e[1])):
            return False
        if c.startswith("pn"):
            return all(num.close(x, y, e[2]) and x > 0 for a, b in zip(got, e[1]) for x, y in zip(a, b))
        if c.startswith("ipm"):
            return (all(abs(x - y) <= e[2] * 100 for x, y in zip(got[0], e[1][0]))
                    and all(x > 0 and (abs(x - y) <= e[2] * 100 if y > 1e-6 else num.close(x, y, 1e-9))
                            for x, y in zip(got[1], e[1][1])))
        return all(abs(x - y) <= e[2] * 100 for a, b in zip(got, e[1]) for x, y in zip(a, b))
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, compare=cmp, what="restoration building blocks")
    ck.assumptions.append("barrier at least as large as the violation times 1/2^7, as the restoration phase chooses it; full-rank constraint Jacobians for the estimates")


def problem(ck):
    """The restoration problem itself and the meaning of its end (spec/RestoreProblem.tla)."""
    exe = core.build("p27_problem", eigen=True)
    count, per = (20000, 2500) if ck.thorough else (3000, 750)
    rs = ck.tlc_many([("RestoreProblem", dict(SEED=ck.seed % 400, LO=a, HI=a + per - 1)) for a in range(1, count + 1, per)])
    fr = lambda q: q[0] / q[1]
    cases = []
    for v in sorted((v for r in rs for v in r.rows("V")), key=lambda v: v["i"]):
        fns = lambda b, a, q: " ".join([vec(b)] + [vec(x) + " " + vec([d for d in y]) for x, y in zip(a, q)])
        tol = 0.625 if fr(v["mu"]) < 1 else 1e-8
        mu = fr(v["mu"]) if fr(v["mu"]) < 1 else 0.01
        cmd = " ".join([str(int(v["ipm"])), str(int(v["ident"])), str(int(v["nan"])), str(v["ncb"]), str(v["st"]), str(v["it"]), f(tol), f(mu), vec(v["xr"]), vec(v["s"]),
                        vec(v["y0"]), vec(v["g"]), vec([1 / d for d in v["de"]]), vec([1 / d for d in v["di"]]), fns(v["be"], v["ae"], v["qe"]), fns(v["bi"], v["ai"], v["qi"]),
                        vec(v["x"]), vec(v["pn"]), vec(v["y"]), vec(v["z"]), vec(v["xf"]), vec(v["sf"])])
        if tol > 1e-3 and v["st"] == 0:
            continue     # integer data: satisfied within the tolerance means satisfied only for small tolerances
        cases.append(core.Case([cmd], [v], {"case": v["i"]}))

    def cmp(v, g, c):
        o = json.loads(g)
        n, me, mi = v["n"], v["me"], v["mi"]
        np_ = 2 * me + 2 * mi
        N = n + np_
        near = lambda a, b, r=1e-12: len(a) == len(b) and all(not isinstance(x, str) and num.close(x, y, r, 1e-12) for x, y in zip(a, b))
        H = [fr(v["H"][r]) if r == q else 0 for r in range(N) for q in range(N)]
        flat = lambda m: [x for r in m for x in r]
        mu = fr(v["mu"])
        bad = []
        req = lambda ok, what: None if ok else bad.append(what)
        req(near(o["dims"], [N, me, mi + np_, N, mi + np_, me, mi + np_]), "dimensions")
        req(o["flags"][0] == 1 and o["flags"][1] == v["ncb"] and o["flags"][2] == 77 and o["flags"][4] == v["it"], "options, callbacks and iteration counter are handed on")
        req(near(o["x0"][:n], v["xr"]), "restoration starts at the current iterate")
        p, q = o["x0"][n:n + me] + o["x0"][n + 2 * me:n + 2 * me + mi], o["x0"][n + me:n + 2 * me] + o["x0"][n + 2 * me + mi:]
        req(all(a > 0 and b > 0 and num.close(a - b, w, 1e-9, 1e-9) for a, b, w in zip(p, q, v["viole"] + v["violi"])), "relaxation variables are positive and cancel the violation")
        req(all(x > 0 for x in o["s0"]) and near(o["s0"][:mi], v["s"]) and all(x > 0 for x in o["z0"]), "slacks and multipliers start positive")
        req(near(o["mu0"], [mu]), "barrier parameter")
        req(near(o["sf"], [1]) and near(o["se"], [1.0] * me if v["ident"] else [1 / d for d in v["de"]])
            and near(o["si"], ([1.0] * mi if v["ident"] or not v["ipm"] else [1 / d for d in v["di"]]) + [1.0] * np_), "scaling")
        req("f" in o and near(o["f"], [fr(v["f"])]) and near(o["g"], [fr(x) for x in v["gr"]]) and near(o["H"], H, 1e-11), "cost, gradient or Hessian")
        req("f" in o and near(o["ce"], v["ce"]) and near(o["Ae"], flat(v["Ae"])) and near(o["ci"], v["ci"]) and near(o["Ai"], flat(v["Ai"])), "constraints or Jacobians")
        req(o["order"] == [11 * k for k in range(v["ncb"])], "callback order")
        # non-finite derivatives where restoration ended: give up, or go on with finite multipliers
        gone_on = v["nan"] and o["ret"] == [0] and o["mult"][2] == 1
        req(o["ret"] == [v["ret"]] or gone_on, f"status {o['ret']}, expected {v['ret']}")
        req(o["it"] == [v["it"] + 3], "iteration counter")
        req(near(o["x"], v["xf"]) and (not v["ipm"] or near(o["s"], v["sf"])), "the final iterate is handed back")
        req(o["mult"][2] == 1 and (gone_on or (o["mult"][1] if v["ret"] == 0 else o["mult"][0])), "multipliers")
        c_bad[0] = bad
        return not bad
    c_bad = [None]
    try:
        ck.cases(exe, cases, compare=cmp, what="restoration problem")
    except core.Violation as e:
        if c_bad[0]:
            e.replay["differs"] = c_bad[0]
            raise core.Violation(e.what + " differs in: " + "; ".join(c_bad[0]), e.replay)
        raise


def run(ck):
    units(ck)
    problem(ck)
    solves.run(ck, "P27", 40000 if ck.thorough else 5000)
