CONSTANT Slots = {1, 2, 3}
CONSTANT Ids = {1, 2}
CONSTANT MaxFire = 2
CONSTANT EMIT = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT ExactlyOnce
PROPERTY NeverUnfires
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
