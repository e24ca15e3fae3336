---------------------------- MODULE ScopeGuard ----------------------------
(* Scope guards (sleipnir/util/scope_exit.hpp).  A slot holds no guard ("-"),  *)
(* or a guard for action `id` that is active or inactive.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Ids, MaxFire, EMIT
VARIABLES slot, fired, made, act
vars == <<slot, fired, made>>
None == [on |-> FALSE, id |-> 0, active |-> FALSE]
Init == /\ slot = [s \in Slots |-> None]
        /\ fired = [i \in Ids |-> 0]
        /\ made = [i \in Ids |-> 0]       \* guards created minus released, per action
        /\ act = [op |-> "init"]
Free(s) == ~slot[s].on
Fire(f, g) == IF g.active THEN [f EXCEPT ![g.id] = @ + 1] ELSE f
Create == \E s \in Slots, i \in Ids, how \in {"lambda", "function"} :
   /\ Free(s) /\ made[i] < MaxFire
   /\ slot' = [slot EXCEPT ![s] = [on |-> TRUE, id |-> i, active |-> TRUE]]
   /\ made' = [made EXCEPT ![i] = @ + 1] /\ UNCHANGED fired
   /\ act' = [op |-> "create", s |-> s, i |-> i, how |-> how]
Move == \E s, t \in Slots : /\ Free(t) /\ slot[s].on
   /\ slot' = [slot EXCEPT ![t] = slot[s], ![s].active = FALSE]
   /\ UNCHANGED <<fired, made>> /\ act' = [op |-> "move", s |-> s, t |-> t]
Release == \E s \in Slots : /\ slot[s].on
   /\ slot' = [slot EXCEPT ![s].active = FALSE]
   /\ made' = (IF slot[s].active THEN [made EXCEPT ![slot[s].id] = @ - 1] ELSE made)
   /\ UNCHANGED fired /\ act' = [op |-> "release", s |-> s]
End == \E s \in Slots, how \in {"normal", "throw"} : /\ slot[s].on
   /\ fired' = Fire(fired, slot[s])
   /\ slot' = [slot EXCEPT ![s] = None]
   /\ UNCHANGED made /\ act' = [op |-> "end", s |-> s, how |-> how]
(* moved into an inner scope which ends, normally or by an exception, while the outer guard lives on *)
Inner == \E s \in Slots, how \in {"normal", "throw"} : /\ slot[s].on
   /\ fired' = Fire(fired, slot[s])
   /\ slot' = [slot EXCEPT ![s].active = FALSE]
   /\ UNCHANGED made /\ act' = [op |-> "inner", s |-> s, how |-> how]
Next == Create \/ Move \/ Release \/ End \/ Inner
Spec == Init /\ [][Next]_vars
(* every created and unreleased action has fired exactly once or is held by exactly one active guard *)
Holders(i) == Cardinality({s \in Slots : slot[s].active /\ slot[s].id = i})
ExactlyOnce == \A i \in Ids : fired[i] + Holders(i) = made[i]
NeverUnfires == [][\A i \in Ids : fired'[i] >= fired[i]]_vars
View == vars
St(sl, f) == [s |-> sl, f |-> f]
Emit == EMIT => PrintT("@E" \o ToJson([f |-> [s |-> slot, f |-> fired, m |-> made], a |-> act', t |-> [s |-> slot', f |-> fired', m |-> made']]))
=============================================================================
