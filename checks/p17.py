"""P17: the step filter (spec/Filter.tla)."""
import math
import core, num

BASE = {1: 0.0, 2: 8e-5, 3: 1.0, 4: 2.0, 5: 2e4, 6: math.nan, 7: math.inf, 8: 900.0}
TOK = {1000: math.nan, 1001: math.inf, -1001: -math.inf}
DD = {1: 0.0, 2: -1.0, 3: -10.0, 4: 1.0, 5: -1e-3, 6: -1.5, 7: -0.0146}


def ent(e):
    c = TOK.get(e["cost"][0], e["cost"][0] + e["cost"][1] * 1e-13)
    v = BASE[e["viol"][0]] * (1 - e["viol"][1] * 1.25e-6)
    return f"{num.f(c)} {num.f(v)}"


def run(ck):
    exe = core.build("p17_filter", flags=core.ASAN)
    r = ck.tlc("Filter", consts=dict(NB=700 if ck.thorough else 400, LEN=60 if ck.thorough else 40, SEED=ck.seed % 400))
    by = {}
    for v in r.rows("V"):
        by.setdefault(v["id"], {})[v["step"]] = v["a"]
    cases, acc, rej, dom = [], 0, 0, 0
    for i in sorted(by):
        cmds, exps = [], []
        for st in sorted(by[i]):
            a = by[i][st]
            if a["op"] == "new":
                cmds.append("new 0x0p+0")
                exps.append(("new", 1e-4, 1e4))
            elif a["op"] == "reset":
                cmds.append("reset")
                exps.append("reset 0")
            else:
                cmds.append(f"try {ent(a['cur'])} {ent(a['t'])} {num.f(DD[a['di']])} {num.f(1.0 if a['ai'] == 1 else 0.25)}")
                exps.append(("try", int(a["ok"]), int(a["flag"])))
                acc += a["ok"]
                rej += not a["ok"]
                dom += (not a["ok"]) and a["flag"]
        cases.append(core.Case(cmds, exps))
    ck.extra.update(accepted=acc, rejected=rej, rejected_by_filter=dom)
    for init in (0.0, 0.5, 1.0, 3.0, 250.0, 1e6):
        cases.append(core.Case([f"new {num.f(init)}"], [("new", 1e-4 * max(1, init), 1e4 * max(1, init))]))
    rng = ck.rng
    for _ in range(300):
        f = rng.randint(-5, 5)
        ce = [float(rng.randint(-4, 4)) for _ in range(rng.randint(0, 4))]
        cases.append(core.Case([f"sqp {num.f(f)} {num.vec(ce)}"], [("new", f, sum(map(abs, ce)))]))
        n = rng.randint(0, 3)
        s = [rng.choice([0.5, 1.0, 2.0, 8.0, 1e-6, 2.0 ** -1000, 2.0 ** 1000]) for _ in range(n)]
        ci = [float(rng.randint(-3, 3)) for _ in range(n)]
        mu = rng.choice([0.1, 1.0, 0.25])
        cost = f - mu * math.fsum(math.log(x) for x in s)
        viol = math.fsum(map(abs, ce)) + math.fsum(abs(a - b) for a, b in zip(ci, s))
        cases.append(core.Case([f"ipm {num.f(f)} {num.vec(s)} {num.vec(ce)} {num.vec(ci)} {num.f(mu)}"], [("new", cost, viol)]))
        q = [rng.randint(-1, 1) for _ in range(4)]
        cases.append(core.Case([f"dom {' '.join(map(num.f, q))}"], [str(int(q[2] <= q[0] and q[3] <= q[1]))]))

    def cmp(e, g, c):
        if isinstance(e, str):
            return e == g
        t = g.split()
        if e[0] == "new":
            return all(num.close(float(x), y, 1e-12, 1e-14) for x, y in zip(t, e[1:]))
        # the reported reason is meaningful after a rejection
        return int(t[0]) == e[1] and (e[1] == 1 or int(t[1]) == e[2])
    ck.cases(exe, cases, compare=cmp, what="filter history")
