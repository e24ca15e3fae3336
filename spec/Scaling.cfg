INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT NS = 2500
INVARIANT UnitInterval
INVARIANT Caps
INVARIANT Emit
CHECK_DEADLOCK FALSE
