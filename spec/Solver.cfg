SPECIFICATION Spec
CONSTANT KINDS = {"newton", "sqp", "ipm"}
CONSTANT MAXITS = {0, 3}
CONSTANT TMOS <- Tmos
CONSTANT NCS = {0, 2}
CONSTANT STOPS <- Stops
CONSTANT BUG = "none"
INVARIANT Accepted
INVARIANT Ended
PROPERTY Terminates
CHECK_DEADLOCK FALSE
