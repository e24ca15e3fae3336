INIT Init
NEXT Next
CONSTANT SEED = 1
CONSTANT NS = 3000
INVARIANT RelaxOk
INVARIANT EqOk
INVARIANT TripOk
INVARIANT Emit
CHECK_DEADLOCK FALSE
