INIT Init
NEXT Next
CONSTANTS SEED = 1
 LO = 1
 HI = 200
INVARIANT Holds
INVARIANT Emit
CHECK_DEADLOCK FALSE
