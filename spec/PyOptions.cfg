SPECIFICATION Spec
INVARIANT Bounded
INVARIANT Exact
INVARIANT Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
