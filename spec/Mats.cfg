CONSTANT SEED = 1
CONSTANT LO = 1
CONSTANT HI = 20
CONSTANT STEPS = 30
CONSTANT NM = 4
CONSTANT NV = 4
CONSTANT NC = 4
CONSTANT MODE = "all"
INIT Init
NEXT Next
INVARIANT Emit
INVARIANT ViewsOK
INVARIANT ShapesOK
INVARIANT ValuesFresh
CHECK_DEADLOCK FALSE
