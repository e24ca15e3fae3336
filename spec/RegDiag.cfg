SPECIFICATION Spec
CONSTANT Mats <- DMats
CONSTANT Plain <- DPlain
CONSTANT Shifted <- DShifted
CONSTANT NV = 1
CONSTANT NE = 1
CONSTANT GammaMinZero = FALSE
CONSTANT Sparse = FALSE
CONSTANT MaxH = 3
CONSTANT MaxLen = 3
CONSTANT Ents <- EntsA
CONSTRAINT Bounded
INVARIANT Terminates
INVARIANT ShiftsNonneg
INVARIANT NoCancel
PROPERTY EndsLive
CHECK_DEADLOCK FALSE
