CONSTANT Lens <- LensQ
CONSTANT Vals <- ValsQ
CONSTANT Steps <- StepsQ
CONSTANT EMIT = TRUE
SPECIFICATION Spec
INVARIANT Membership
INVARIANT InBounds
INVARIANT CountOK
INVARIANT SingleIndex
INVARIANT StrictOrder
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
