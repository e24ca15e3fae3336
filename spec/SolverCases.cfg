INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 50
INVARIANT WellFormed
INVARIANT Emit
CHECK_DEADLOCK FALSE
