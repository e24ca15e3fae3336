CONSTANT Timers = {1}
CONSTANT Slots = {1, 2}
CONSTANT MaxN = 3
CONSTANT MaxT = 3
CONSTANT KIND = "solve"
CONSTANT EMIT = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT NonNegative
INVARIANT OneHolder
PROPERTY RecordedOnce
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
