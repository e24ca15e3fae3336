SPECIFICATION Spec
CONSTANT SEED = 1
CONSTANT NB = 300
CONSTANT LEN = 40
INVARIANT NeverForgets
INVARIANT Covered
INVARIANT OnlyFinite
INVARIANT Progress
INVARIANT Emit
CHECK_DEADLOCK FALSE
