"""P06: expressions evaluate to the function they were written as (spec/Calc.tla, spec/Hist.tla)."""
import calc, core, dyadic, hist


def calc_part(ck, what, plan, label):
    exe = core.build("p06_calc", lib=core.AD_SRC, flags=core.ASAN)
    comp = skip = 0
    for mode, nv, total in plan:
        rows = calc.tlc_rows(ck, mode, nv, total)
        cs, st = calc.cases(rows, nv, what, mode, ck.rng)
        comp += st["compared"]
        skip += st["skipped"]
        ck.cases(exe, cs, compare=calc.compare, what=f"{label}, {mode} programs of {nv} variables", timeout=600)
    ck.extra["answers_compared"] = comp
    ck.extra["answers_not_asked_singular"] = skip


def dyadic_part(ck, what, label):
    """Magnitudes from 2^-300 to 2^150 and constants 2^-50 away from 0, 1 and 2."""
    exe = core.build("p06_calc", lib=core.AD_SRC, flags=core.ASAN)
    rows, lim = dyadic.rows(ck, 12 if ck.thorough else 3)
    cs, n = dyadic.cases(rows, what)
    ck.extra["exact_extreme_answers"] = n
    ck.cases(exe, cs, compare=calc.compare, what=f"{label}, extreme magnitudes", timeout=600)
    if what & {"values", "derivs"}:
        def far(case, j, e, g):      # NaN as second derivative of tanh beyond the range of cosh is a listed finding
            op, x = case.label["program"]
            return (op == "tanh" and abs(x) > 710 and case.cmds[j] == "E 1" and set(g.split()) <= {"nan", "-nan", "|"}
                    and ck.known("tanh-second-derivative"))
        ck.cases(exe, dyadic.limit_cases(lim, what), compare=calc.compare, what=f"{label}, far out", on_mismatch=far)


def hist_part(ck, n, steps, keep, exhaustive=3):
    """Histories; `keep` = the answer kinds this property owns (others are executed but not compared)."""
    exe = core.build("p09_hist", lib=core.AD_SRC, flags=core.ASAN)
    rows = hist.rows(ck, n, steps)
    cs = hist.cases(rows, 5, 3)
    r = ck.tlc("Hist", consts=dict(MODE='"small"', NH=3, NO=2, NX=3, STEPS=exhaustive))
    import json
    small = sorted(r.rows("H"), key=lambda x: json.dumps(x["log"]))
    cs += hist.cases(small, 3, 2)
    for c in cs:
        for i, cmd in enumerate(c.cmds):
            k = cmd.split()[0]
            if k in ("val", "type", "ev", "sym", "end") and k not in keep:
                c.exps[i] = None
    ck.cases(exe, cs, compare=hist.compare, what="history of handles", timeout=600)
    ck.extra["exhaustive_histories"] = len(small)


def run(ck):
    plan = [("level1", 2, 4010), ("level2", 2, 1200), ("rand", 3, 1500), ("poly", 3, 500)]
    if ck.thorough:
        plan = [("level1", 2, 4010), ("level2", 2, 20000), ("rand", 3, 20000), ("rand", 5, 10000), ("poly", 4, 8000)]
    calc_part(ck, {"values"}, plan, "value of an expression")
    dyadic_part(ck, {"values"}, "value of an expression")
    hist_part(ck, *((8000, 60) if ck.thorough else (1500, 30)), keep=("val",), exhaustive=4 if ck.thorough else 3)
    ck.assumptions += ["values are compared where the formula is finite and not on a branch cut",
                       "documented conventions log(0)=0 and 0^p=0 for constant zeros are not judged"]
