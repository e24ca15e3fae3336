"""P14: every solve ends with a truthful status (spec/Solver.tla, SolverEvents.tla, SolverTrace.tla)."""
import p12, solves


def run(ck):
    solves.run(ck, "P14", 60000 if ck.thorough else 6000, asan=True)
    p12.run_histories(ck, *((15000, 16) if ck.thorough else (2500, 12)), want="P14")
