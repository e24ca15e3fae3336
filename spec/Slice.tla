------------------------------- MODULE Slice -------------------------------
(* Python slicing of a sequence of length len, and the normalised form a     *)
(* sleipnir Slice must take (sleipnir/autodiff/slice.hpp).                   *)
(*                                                                          *)
(* A bound is N (omitted) or an integer.  +-(1000-k) stand for extreme C++   *)
(* integers (INT_MAX-k / INT_MIN+k): Python clamps, so every value far past  *)
(* the length is equivalent.  All vectors are initial states; `step` of the  *)
(* state machine: constructed -> adjusted.                                   *)
EXTENDS PySlice, FiniteSets, TLC, Json
CONSTANTS Lens, Vals, Steps, EMIT
VARIABLES form, a, b, k, len, phase
vars == <<form, a, b, k, len, phase>>

(* the one-argument forms: Slice(i) selects element i alone, -1 the last     *)
Expand == CASE form = "idx" -> IF a = -1 THEN <<-1, N, 1>>
                               ELSE <<a, a + 1, 1>>
            [] form = "all" -> <<N, N, 1>>
            [] form = "dflt" -> <<0, 0, 1>>
            [] OTHER -> <<a, b, StepOf(k)>>

Init == /\ phase = "new"
        /\ len \in Lens
        /\ \/ form = "3" /\ a \in Vals /\ b \in Vals /\ k \in Steps
           \/ form = "2" /\ a \in Vals /\ b \in Vals /\ k = 1
           \/ form = "idx" /\ a \in (Vals \ {N}) /\ b = N /\ k = N
           \/ form \in {"all", "dflt"} /\ a = N /\ b = N /\ k = N
Adjust == /\ phase = "new" /\ phase' = "adjusted"
          /\ UNCHANGED <<form, a, b, k, len>>
Next == Adjust
Spec == Init /\ [][Next]_vars

E == Expand
V == Visits(E[1], E[2], E[3], len)
(* properties of the definition itself *)
Membership ==   \* the visited positions are exactly those a Python reader expects
  LET i == NStart(E[1], E[3], len)  j == NStop(E[2], E[3], len)  s == E[3]
  IN {V[n] : n \in 1..Len(V)} =
       {p \in 0..(len-1) : IF s > 0 THEN p >= i /\ p < j /\ (p - i) % s = 0
                           ELSE p <= i /\ p > j /\ (i - p) % (-s) = 0}
InBounds == \A n \in 1..Len(V) : V[n] \in 0..(len-1)
CountOK == Len(V) = Count(NStart(E[1], E[3], len), NStop(E[2], E[3], len), E[3])
SingleIndex == form = "idx" /\ a >= -len /\ a < len => Len(V) = 1 /\ V[1] = a % len
StrictOrder == \A n \in 1..(Len(V)-1) : V[n+1] - V[n] = E[3]

Emit == EMIT => PrintT("@V" \o ToJson([form |-> form, a |-> a, b |-> b, k |-> k, len |-> len, v |-> V]))
=============================================================================
