SPECIFICATION Spec
CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 400
INVARIANT Inverses
INVARIANT Commutes
INVARIANT Emit
CHECK_DEADLOCK FALSE
