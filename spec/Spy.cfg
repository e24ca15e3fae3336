SPECIFICATION Spec
CONSTANT SEED = 1
CONSTANT NB = 300
INVARIANT RoundTrip
INVARIANT OneEntryPerAdd
INVARIANT Emit
CHECK_DEADLOCK FALSE
