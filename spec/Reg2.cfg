SPECIFICATION Spec
CONSTANT Mats <- M2Mats
CONSTANT Plain <- M2Plain
CONSTANT Shifted <- M2Shifted
CONSTANT NV = 1
CONSTANT NE = 1
CONSTANT GammaMinZero = FALSE
CONSTANT Sparse = FALSE
CONSTANT Range = 2
CONSTANT SparsePivot = 1
CONSTANT MaxH = 3
CONSTANT MaxLen = 2
CONSTRAINT Bounded
INVARIANT Terminates
INVARIANT ShiftsNonneg
INVARIANT Sound
INVARIANT Exact
PROPERTY EndsLive
CHECK_DEADLOCK FALSE
