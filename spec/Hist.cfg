CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 5
CONSTANT STEPS = 25
CONSTANT MODE = "rand"
CONSTANT NH = 5
CONSTANT NO = 3
CONSTANT NX = 4
INIT Init
NEXT Next
INVARIANT Emit
INVARIANT Sane
CHECK_DEADLOCK FALSE
