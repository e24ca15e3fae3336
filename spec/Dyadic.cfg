CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 5
CONSTANT PER = 1
INIT Init
NEXT Next
INVARIANT Emit
INVARIANT EmitLimits
CHECK_DEADLOCK FALSE
