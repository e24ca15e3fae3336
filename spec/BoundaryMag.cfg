SPECIFICATION Spec
CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 4000
INVARIANT Sound
INVARIANT Candidate
INVARIANT Emit
CHECK_DEADLOCK FALSE
