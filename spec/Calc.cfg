CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 5
CONSTANT MODE = "level1"
CONSTANT NV = 2
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
