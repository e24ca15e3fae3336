INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 20
CONSTANT LEN = 3
CONSTANT NT = 2
CONSTANT ALL = TRUE
INVARIANT Independent
INVARIANT Emit
CHECK_DEADLOCK FALSE
