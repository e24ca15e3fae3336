SPECIFICATION Spec
CONSTANT LEN = 1
INVARIANT NoneLost
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
