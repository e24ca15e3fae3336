INIT Init
NEXT Next
CONSTANT N = 3
INVARIANT Partition
INVARIANT Emit
CHECK_DEADLOCK FALSE
