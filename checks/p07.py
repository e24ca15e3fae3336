"""P07: reported expression types (spec/Calc.tla type rules and derivative-based lower bounds, spec/Hist.tla)."""
from p06 import calc_part, dyadic_part, hist_part


def run(ck):
    plan = [("level1", 2, 4010), ("level2", 2, 1500), ("poly", 3, 2500), ("rand", 3, 1200)]
    if ck.thorough:
        plan = [("level1", 2, 4010), ("level2", 2, 20000), ("poly", 3, 20000), ("rand", 3, 15000), ("poly", 5, 8000)]
    calc_part(ck, {"types"}, plan, "type of an expression")
    dyadic_part(ck, {"types"}, "type of an expression")
    hist_part(ck, *((8000, 60) if ck.thorough else (1500, 30)), keep=("type",), exhaustive=3)
