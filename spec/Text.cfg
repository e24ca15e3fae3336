SPECIFICATION Spec
INVARIANTS WideEnough NothingLost Emit
CHECK_DEADLOCK FALSE
