CONSTANTS
  SEED = 1
  LO = 1
  HI = 2000
SPECIFICATION Spec
INVARIANT Sane Emit
CHECK_DEADLOCK FALSE
