CONSTANTS SEED = 1 LO = 1 HI = 100 LEN = 12
INIT Init
NEXT Next
INVARIANTS Emit Sound
CHECK_DEADLOCK FALSE
