"""P21: local infeasibility predicates (spec/Infeas.tla)."""
import core, num


def run(ck):
    exe = core.build("util_num")
    r = ck.tlc("Infeas", consts=dict(NS=30000 if ck.thorough else 6000, SEED=ck.seed % 400, MaxR=4 if ck.thorough else 3))
    cases = []
    for v in r.rows("V"):
        A = [[x * 2.0 ** v["ea"] for x in row] for row in v["A"]]
        c = num.vec([x * 2.0 ** v["ec"] for x in v["c"]])
        m = num.mat(A, v["n"], lambda a, b: A[a][b] != 0 or v["expl"], v["m"])
        cases.append(core.Case([f"eqinf d {m} {c}"], [str(int(v["eq"]))]))
        cases.append(core.Case([f"ineqinf d {m} {c}"], [str(int(v["ineq"]))]))
        if v["ea"] + v["ec"] > -19 and v["ec"] > -6:
            cases.append(core.Case([f"eqinf f {m} {c}"], [str(int(v["eq"]))]))
            cases.append(core.Case([f"ineqinf f {m} {c}"], [str(int(v["ineq"]))]))
    ck.extra["declared_infeasible"] = sum(e == "1" for k in cases for e in k.exps)
    cases.sort(key=lambda c: c.cmds)
    ck.cases(exe, cases, what="local infeasibility")
    ck.assumptions.append("integer Jacobians and violations times powers of two; thresholds 1e-6 (stationarity), 1e-2 (violation)")
