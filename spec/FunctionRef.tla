---------------------------- MODULE FunctionRef ----------------------------
(* Non-owning callable references (sleipnir/util/function_ref.hpp).           *)
(* A reference is unconstructed (0) or bound to a callable k.  Callables live   *)
(* longer than the references.  `calls` counts invocations per callable.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Refs, Callables, MaxCalls, EMIT
VARIABLES ref, calls, act
vars == <<ref, calls>>
Init == ref = [r \in Refs |-> 0] /\ calls = [c \in Callables |-> 0] /\ act = [op |-> "init"]
Bind == \E r \in Refs, c \in Callables :
          /\ ref[r] = 0 /\ ref' = [ref EXCEPT ![r] = c] /\ UNCHANGED calls
          /\ act' = [op |-> "bind", r |-> r, c |-> c]
Assign == \E r \in Refs, c \in Callables :
          /\ ref[r] # 0 /\ ref' = [ref EXCEPT ![r] = c] /\ UNCHANGED calls
          /\ act' = [op |-> "assign", r |-> r, c |-> c]
CopyCtor == \E r, q \in Refs, how \in {"lvalue", "const", "rvalue"} :
          /\ ref[r] = 0 /\ ref[q] # 0 /\ ref' = [ref EXCEPT ![r] = ref[q]] /\ UNCHANGED calls
          /\ act' = [op |-> "copyctor", r |-> r, q |-> q, how |-> how]
CopyAssign == \E r, q \in Refs, how \in {"lvalue", "const", "rvalue", "temp"} :
          /\ ref[r] # 0 /\ ref[q] # 0 /\ ref' = [ref EXCEPT ![r] = ref[q]] /\ UNCHANGED calls
          /\ act' = [op |-> "copy", r |-> r, q |-> q, how |-> how]
Swap == \E r, q \in Refs, how \in {"member", "free", "std"} :
          /\ r <= q /\ ref[r] # 0 /\ ref[q] # 0
          /\ ref' = [ref EXCEPT ![r] = ref[q], ![q] = ref[r]] /\ UNCHANGED calls
          /\ act' = [op |-> "swap", r |-> r, q |-> q, how |-> how]
Drop == \E r \in Refs : /\ ref[r] # 0 /\ ref' = [ref EXCEPT ![r] = 0] /\ UNCHANGED calls
          /\ act' = [op |-> "drop", r |-> r]
Call == \E r \in Refs : /\ ref[r] # 0 /\ calls[ref[r]] < MaxCalls
          /\ calls' = [calls EXCEPT ![ref[r]] = @ + 1] /\ UNCHANGED ref
          /\ act' = [op |-> "call", r |-> r]
Next == Bind \/ Assign \/ CopyCtor \/ CopyAssign \/ Swap \/ Drop \/ Call
Spec == Init /\ [][Next]_vars
(* rebinding one reference never moves another *)
Independent == [][\A r \in Refs : ref'[r] # ref[r] =>
                    \/ act'.r = r \/ (act'.op = "swap" /\ act'.q = r)]_vars
CallsOnlyBound == [][\A c \in Callables : calls'[c] # calls[c] => act'.op = "call" /\ ref[act'.r] = c]_vars
View == vars
Emit == EMIT => PrintT("@E" \o ToJson([f |-> [r |-> ref, c |-> calls], a |-> act', t |-> [r |-> ref', c |-> calls']]))
=============================================================================
