------------------------------ MODULE SliceBig ------------------------------
(* Huge lengths: the closed form (shown equal to the walk in SliceMC) is     *)
(* evaluated near the top of the 32-bit range.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT EMIT
IMAX == 2147483647
VARIABLES a, b, k, len, phase
S == INSTANCE Slice WITH Lens <- {}, Vals <- {}, Steps <- {}, form <- "3"
Near == {0, 1, 7, 1000000, 1073741823, 1073741824, IMAX - 2, IMAX - 1, IMAX}
SVals == Near \cup {-x : x \in Near} \cup {S!N}
SSteps == {1, 2, 3, 1000, 1073741823, 1073741824, IMAX - 1, IMAX,
           -1, -2, -3, -1000, -1073741823, -1073741824, -(IMAX - 1), -IMAX, S!N}
BLens == {1000003, 1073741824, IMAX - 1, IMAX}
Init == phase = "new" /\ len \in BLens /\ a \in SVals /\ b \in SVals /\ k \in SSteps
Next == phase = "new" /\ phase' = "adjusted" /\ UNCHANGED <<a, b, k, len>>
st == S!StepOf(k)
i == S!NStart(a, st, len)
j == S!NStop(b, st, len)
InRange == S!Count(i, j, st) > 0 => /\ i >= 0 /\ i < len
                                    /\ i + (S!Count(i, j, st) - 1) * st \in 0..(len-1)
Emit == EMIT => PrintT("@V" \o ToJson([form |-> "3", a |-> a, b |-> b, k |-> k, len |-> len,
            n |-> S!Count(i, j, st), first |-> i]))
=============================================================================
