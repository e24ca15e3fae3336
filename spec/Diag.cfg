INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT NS = 1000
INVARIANT Bars
INVARIANT Shares
INVARIANT Rows
INVARIANT Emit
CHECK_DEADLOCK FALSE
