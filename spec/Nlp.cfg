INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 200
INVARIANT KKT
INVARIANT Points
INVARIANT Emit
CHECK_DEADLOCK FALSE
