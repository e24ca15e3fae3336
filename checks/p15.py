"""P15: solutions of problems whose solution is known by construction (spec/Nlp.tla), and of every convex problem of spec/Problem.tla."""
import json
import core
import p12


def lines(v):
    p = v["p"]
    n = p["n"]
    flat = lambda m: [x for r in m for x in r]
    for s, start in enumerate(v["start"]):
        head = [p["k"], n, (v["style"] + s) % 3, v["perm"], int(v["max"]), int(v["feas"] and s == 0), p["fs"]]
        if p["k"] == "cvx":
            body = p["xs"] + flat(p["H"]) + p["c"] + [p["f0"]] + p["q"] + [len(p["eqs"])]
            for e in p["eqs"]:
                body += e["a"] + [e["b"], e["sc"]]
            body += [len(p["ins"])]
            for c in p["ins"]:
                body += c["a"] + c["k"] + [c["b"], c["sc"]]
        else:
            rows = []
            for k in range(n):
                kd = p["kind"][k]
                if kd == "eq":
                    rows.append([0, k, p["e"][k], p["sc"][k]])
                if kd in ("lo", "both") and not (kd == "both" and s):
                    rows.append([1, k, p["lo"][k], p["sc"][k]])
                if kd in ("hi", "both") and not (kd == "both" and s):
                    rows.append([2, k, p["hi"][k], p["sc"][k]])
                if kd == "both" and s:
                    rows.append([3, k, p["hi"][k], 0, p["lo"][k]])
            body = flat(p["V"]) + p["w"] + p["a"] + [len(rows)] + [x for r in rows for x in r]
        yield " ".join(map(str, head + body + start))


def cases(ck, count, per=400):
    rs = ck.tlc_many([("Nlp", dict(SEED=ck.seed % 400, LO=a, HI=min(count, a + per - 1))) for a in range(1, count + 1, per)])
    out = []
    for v in sorted((v for r in rs for v in r.rows("V")), key=lambda v: v["i"]):
        ls = list(lines(v))
        out.append(core.Case(ls, [v] * len(ls), {"case": v["i"]}))
    return out


FEASIBLE = {0, -4, -5, -6, -8, -9}   # nothing asks to stop, no time limit, finite start, feasible, degrees of freedom left


def judge(v, o, tol):
    """None, ("wrong", why) or ("slow", why): no answer on a convex problem, which a solver may owe to rounding or a bad start, rarely"""
    p = v["p"]
    bad = any(isinstance(x, str) for x in o["x"])
    if o["st"] not in FEASIBLE:
        return "wrong", f"status {o['st']} on a feasible problem"
    if p["k"] == "cvx":
        far = bad or max(abs(x - w) for x, w in zip(o["x"], p["xs"])) > tol
        if o["st"] == 0:
            if far:
                return "wrong", f"success at {o['x']}, the solution is {p['xs']}"
            if isinstance(o["f"], str) or abs(o["f"] - p["f0"]) > 10 * tol * (1 + max(map(abs, p["c"]))):
                return "wrong", f"cost {o['f']}, the minimum is {p['f0']}"
        elif far:
            return "slow", f"status {o['st']} at {o['x']}, the solution is {p['xs']}"
    elif o["st"] == 0:
        for k in range(p["n"]):
            t = sum(a * b for a, b in zip(p["V"][k], o["x"]))
            if bad or min(abs(t - q) for q in p["pts"][k]) > tol:
                return "wrong", f"success with component {k} at {t}, first-order points are {p['pts'][k]}"
    else:
        return "slow", f"status {o['st']}"


SLOW = 0.004     # measured: 0.0006 over 96 000 solves


def solve_all(ck, exe, cs, tol, what):
    why, slow, total = [], [], sum(len(c.cmds) for c in cs)

    def compare(v, g, c):
        try:
            o = json.loads(g)
        except ValueError:
            return False
        r = judge(v, o, tol)
        if r and r[0] == "slow":
            slow.append((r[1], c))
            return True
        if r:
            why.append(r[1])
        return r is None
    try:
        ck.cases(exe, cs, compare=compare, what=what)
    except core.Violation as e:
        if why:
            raise core.Violation(e.what + " -- " + why[-1], e.replay)
        raise
    ck.extra["unsolved_of"] = ck.extra.get("unsolved_of", []) + [[len(slow), total]]
    if len(slow) > max(3, SLOW * total):
        raise core.Violation(f"{len(slow)} of {total} solvable problems are not solved, e.g. {slow[0][0]}",
                             {"kind": "replay", "harness": "p15_nlp", "cmds": [c for _, c in slow[:20]]})


def run(ck):
    exe = core.build("p15_nlp", lib=core.LIB_SRC, eigen=True)
    solve_all(ck, exe, cases(ck, 8000 if ck.thorough else 2000), 2e-3, "problem with a known solution")
    p12.run_histories(ck, *((20000, 16) if ck.thorough else (3000, 12)), want="P15")
    ck.assumptions.append("a strictly convex problem may stay unsolved (never: wrongly solved or called infeasible) in 0.4 % of the drawn cases")
