"""P08: gradients, Jacobians and Hessians (spec/Calc.tla rules of calculus, spec/Hist.tla exact jets)."""
from p06 import calc_part, dyadic_part, hist_part


def run(ck):
    plan = [("level1", 2, 4010), ("level2", 2, 1000), ("rand", 3, 1200), ("poly", 3, 600)]
    if ck.thorough:
        plan = [("level1", 2, 4010), ("level2", 2, 15000), ("rand", 3, 12000), ("rand", 5, 4000), ("poly", 4, 6000)]
    calc_part(ck, {"derivs"}, plan, "derivatives of an expression")
    dyadic_part(ck, {"derivs"}, "derivatives of an expression")
    hist_part(ck, *((8000, 60) if ck.thorough else (800, 30)), keep=("ev", "sym"), exhaustive=3)
    ck.assumptions += ["derivatives are compared to 1e-8 of the largest intermediate; at kinks only one-sided bounds are judged",
                       "no variable is listed twice among those differentiated against"]
