CONSTANT Depths = {3, 1000, 100000}
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
