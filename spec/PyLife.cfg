CONSTANT LO = 1
CONSTANT HI = 50
CONSTANT LEN = 16
CONSTANT NN = 5
CONSTANT SEED = 1
SPECIFICATION Spec
INVARIANT Sound
INVARIANT Emit
CHECK_DEADLOCK FALSE
