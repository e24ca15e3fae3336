------------------------------ MODULE Profiler ------------------------------
(* Setup and solve timers and the scoped measurement (util/profiler.hpp).     *)
(* Time is a scripted clock.  A timer has: time since its last start, whether  *)
(* a measurement is running, and what it recorded.  Slots hold scoped          *)
(* measurements.  One measurement per timer runs at a time.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Timers, Slots, MaxN, MaxT, KIND, EMIT
VARIABLES tm, slot, act
vars == <<tm, slot>>
T0 == [run |-> FALSE, el |-> 0, n |-> 0, cur |-> 0, tot |-> 0]
S0 == [on |-> FALSE, t |-> 0, active |-> FALSE]
Init == tm = [t \in Timers |-> T0] /\ slot = [s \in Slots |-> S0] /\ act = [op |-> "init"]
StartT(x) == [x EXCEPT !.run = TRUE, !.el = 0]
StopT(x) == [x EXCEPT !.run = FALSE, !.el = 0, !.n = @ + 1, !.cur = x.el, !.tot = @ + x.el]
HeldBy(t) == {s \in Slots : slot[s].active /\ slot[s].t = t}
Tick == \E d \in 1..2 : /\ (\E t \in Timers : tm[t].run)
        /\ (\A t \in Timers : tm[t].run => tm[t].el + d <= MaxT)
        /\ tm' = [t \in Timers |-> IF tm[t].run THEN [tm[t] EXCEPT !.el = @ + d] ELSE tm[t]]
        /\ UNCHANGED slot /\ act' = [op |-> "tick", d |-> d]
Start == \E t \in Timers : /\ HeldBy(t) = {} /\ tm[t].n < MaxN
         /\ tm' = [tm EXCEPT ![t] = StartT(@)] /\ UNCHANGED slot /\ act' = [op |-> "start", t |-> t]
Stop == \E t \in Timers : /\ HeldBy(t) = {} /\ tm[t].run
        /\ tm' = [tm EXCEPT ![t] = StopT(@)] /\ UNCHANGED slot /\ act' = [op |-> "stop", t |-> t]
Scope == \E t \in Timers, s \in Slots : /\ ~slot[s].on /\ HeldBy(t) = {} /\ ~tm[t].run /\ tm[t].n < MaxN
         /\ tm' = [tm EXCEPT ![t] = StartT(@)]
         /\ slot' = [slot EXCEPT ![s] = [on |-> TRUE, t |-> t, active |-> TRUE]]
         /\ act' = [op |-> "scope", t |-> t, s |-> s]
SMove == \E s, u \in Slots : /\ slot[s].on /\ ~slot[u].on
         /\ slot' = [slot EXCEPT ![u] = slot[s], ![s].active = FALSE]
         /\ UNCHANGED tm /\ act' = [op |-> "smove", s |-> s, u |-> u]
SStop == \E s \in Slots : /\ slot[s].on
         /\ tm' = (IF slot[s].active THEN [tm EXCEPT ![slot[s].t] = StopT(@)] ELSE tm)
         /\ slot' = [slot EXCEPT ![s].active = FALSE]
         /\ act' = [op |-> "sstop", s |-> s]
SEnd == \E s \in Slots, how \in {"normal", "throw"} : /\ slot[s].on
         /\ tm' = (IF slot[s].active THEN [tm EXCEPT ![slot[s].t] = StopT(@)] ELSE tm)
         /\ slot' = [slot EXCEPT ![s] = S0]
         /\ act' = [op |-> "send", s |-> s, how |-> how]
CopyTimer == \E t \in Timers, how \in {"copy", "moved"} : /\ (\A s \in Slots : ~(slot[s].on /\ slot[s].t = t))
         /\ UNCHANGED vars /\ act' = [op |-> "clone", t |-> t, how |-> how]
Next == Tick \/ Start \/ Stop \/ Scope \/ SMove \/ SStop \/ SEnd \/ CopyTimer
Spec == Init /\ [][Next]_vars
NonNegative == \A t \in Timers : tm[t].cur >= 0 /\ tm[t].tot >= tm[t].cur /\ tm[t].n >= 0
OneHolder == \A t \in Timers : Cardinality(HeldBy(t)) <= 1 /\ (HeldBy(t) # {} => tm[t].run)
RecordedOnce == [][\A t \in Timers : /\ tm'[t].n \in {tm[t].n, tm[t].n + 1}
                     /\ tm'[t].tot - tm[t].tot = (IF tm'[t].n > tm[t].n THEN tm[t].el ELSE 0)]_vars
View == vars
Emit == EMIT => PrintT("@E" \o ToJson([f |-> [tm |-> tm, s |-> slot], a |-> act', t |-> [tm |-> tm', s |-> slot']]))
=============================================================================
