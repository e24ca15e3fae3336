CONSTANT Refs = {1, 2, 3}
CONSTANT Callables = {1, 2, 3}
CONSTANT MaxCalls = 1
CONSTANT EMIT = TRUE
SPECIFICATION Spec
VIEW View
PROPERTY Independent
PROPERTY CallsOnlyBound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
