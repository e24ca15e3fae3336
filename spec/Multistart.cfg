INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT N = 2
CONSTANT Costs = {1, 2, 3}
CONSTANT Failures = {1, 7}
INVARIANT NoFailurePreferred
INVARIANT Cheapest
INVARIANT OnceEach
INVARIANT AllBeforeReturn
