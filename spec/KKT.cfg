SPECIFICATION Spec
CONSTANT SEED = 1
CONSTANT NS = 2500
INVARIANT Invariance
INVARIANT Relax
INVARIANT Emit
CHECK_DEADLOCK FALSE
