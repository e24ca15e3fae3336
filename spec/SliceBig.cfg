CONSTANT EMIT = TRUE
INIT Init
NEXT Next
INVARIANT InRange
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
