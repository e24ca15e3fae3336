CONSTANT NBase = 2
CONSTANT NDer = 1
CONSTANT OBase = 1
CONSTANT ODer = 1
CONSTANT EMIT = TRUE
SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT CountExact
INVARIANT NoDangling
INVARIANT AliveIffHeld
INVARIANT DestroyOnce
PROPERTY DiesAtLastRelease
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
