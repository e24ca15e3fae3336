INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT NS = 3000
INVARIANT Consistent
INVARIANT Emit
CHECK_DEADLOCK FALSE
