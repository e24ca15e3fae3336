INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 1000
INVARIANT Exact
INVARIANT Consistent
INVARIANT Emit
CHECK_DEADLOCK FALSE
