INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT NS = 4000
CONSTANT MaxR = 3
CONSTANT MaxC = 3
INVARIANT Feasible
INVARIANT FeasibleI
INVARIANT Reducible
INVARIANT Irrelevant
INVARIANT Emit
CHECK_DEADLOCK FALSE
