CONSTANT LO = 1
CONSTANT HI = 50
CONSTANT SEED = 1
SPECIFICATION Spec
INVARIANT Expansion
INVARIANT Symmetric
INVARIANT Emit
CHECK_DEADLOCK FALSE
