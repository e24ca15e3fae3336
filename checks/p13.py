"""P13: iteration callbacks (spec/Solver.tla, SolverEvents.tla, SolverTrace.tla)."""
import solves
import p12


def run(ck):
    solves.run(ck, "P13", 40000 if ck.thorough else 6000)
    p12.run_histories(ck, *((12000, 16) if ck.thorough else (2500, 12)), want="P13")
