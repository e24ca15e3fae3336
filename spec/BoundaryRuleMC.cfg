SPECIFICATION Spec
CONSTANT N = 2
CONSTANT Xs <- XsD
CONSTANT Ps <- PsD
CONSTANT Taus <- TausD
CONSTANT AnyOrder = TRUE
INVARIANT InRange
INVARIANT Sound
INVARIANT Maximal
INVARIANT Emit
CHECK_DEADLOCK FALSE
