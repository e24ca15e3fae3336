SPECIFICATION Spec
INVARIANT WellFormed
INVARIANT Emit
CHECK_DEADLOCK FALSE
