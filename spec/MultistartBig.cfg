INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT LO = 1
CONSTANT HI = 50
CONSTANT SEED = 1
INVARIANT NoFailurePreferred
INVARIANT Cheapest
INVARIANT OnceEach
INVARIANT Emit
