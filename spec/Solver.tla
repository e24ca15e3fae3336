-------------------------------- MODULE Solver --------------------------------
(* The three solvers, abstractly: the loop head, the callbacks, the step, and the feasibility restoration phase
   with its own loop, run against an environment that chooses every function value. An iterate is known only by
     kkt (error within tolerance), lv (violation: 0 = within tolerance), blown, cip (inequalities strictly
     satisfied), der (derivatives finite).
   TLC checks that the events such a solver produces are never rejected by the monitor of SolverEvents, and that
   every solve ends. BUG plants one of the faults the monitor must notice. *)
EXTENDS SolverEvents, TLC
CONSTANTS KINDS, MAXITS, TMOS, NCS, STOPS, BUG
Tmos == {-1, 1}
Stops == {-1, 1}
VARIABLES c, pc, t, x, r, stopk, ck, m
vars == <<c, pc, t, x, r, stopk, ck, m>>
Iterate == {i \in [kkt : BOOLEAN, lv : 0..2, blown : BOOLEAN, cip : BOOLEAN, der : BOOLEAN] :
              /\ i.kkt => i.lv = 0 /\ ~i.blown /\ i.der
              /\ c.me = 0 /\ c.mi = 0 => i.lv = 0 /\ i.cip
              /\ c.mi = 0 => i.cip
              /\ i.blown => i.lv # 1 /\ i.der /\ i.cip}      \* a representative
Scenario == {s \in [kind : KINDS, n : {1}, me : {0, 1, 2}, mi : {0, 1}, nc : NCS, maxit : MAXITS, tmo : TMOS, slack : {0},
                    feas : BOOLEAN, bad : BOOLEAN, conv0 : {FALSE}, known : {TRUE}, diag : BOOLEAN] :
               /\ s.diag = (s.nc > 0)
               /\ s.kind = "newton" => s.me = 0 /\ s.mi = 0
               /\ s.kind = "sqp" => s.me > 0 /\ s.mi = 0
               /\ s.kind = "ipm" => s.mi = 1
               /\ s.feas => s.kind = "ipm"
               /\ (s.bad \/ s.me = 2) => s.tmo = -1 /\ ~s.feas}
NoRes == [on |-> FALSE, lv |-> 0, k |-> 0, cip |-> FALSE, t |-> 0]
Init == /\ c \in Scenario
        /\ x \in Iterate
        /\ pc = "start" /\ t = 0 /\ r = NoRes /\ ck = 0 /\ m = Monitor0
        /\ stopk \in [0..(c.nc - 1) -> STOPS]
Finish(st) == /\ pc' = "done"
              /\ m' = End(c, m, [st |-> st, it |-> ck, errok |-> x.kkt, feasok |-> x.lv = 0, blown |-> x.blown, costok |-> x.der, t |-> t])
              /\ UNCHANGED <<c, t, x, r, stopk, ck>>
Goto(p) == pc' = p /\ UNCHANGED <<c, t, x, r, stopk, ck, m>>
Start == pc = "start" /\ (IF c.me > c.n THEN Finish(-1) ELSE IF c.bad THEN Finish(-7) ELSE Goto("head"))
OverTime == c.tmo >= 0 /\ t - (IF BUG = "restart-clock" THEN r.t ELSE 0) > c.tmo
LoopHead == /\ pc = "head"
        /\ IF x.kkt \/ (BUG = "nan-success" /\ ~x.der) THEN Finish(0)
           ELSE IF ck >= c.maxit + (IF BUG = "late-limit" /\ ck = 0 THEN 1 ELSE 0) THEN Finish(-9)
           ELSE IF OverTime THEN Finish(-10)
           ELSE IF x.blown /\ BUG # "diverge-on" THEN Finish(-8)
           ELSE \/ (x.lv > 0 /\ Finish(-2))
                \/ Goto("cb")
Event(pos, hc) == [id |-> pos, it |-> ck, stop |-> stopk[pos] = ck, dims |-> ~(BUG = "inner-data" /\ hc), der |-> TRUE, pos |-> TRUE, fin |-> TRUE,
                   cip |-> x.cip, hc |-> hc, redu |-> x.lv < r.lv, t |-> t, far |-> x.blown]
(* the callbacks of one round, stopping at the first that asks to *)
CallOne(hc, after) ==
  LET e == Event(m.pos, hc)
      quit == e.stop /\ ~(BUG = "stop-swallowed" /\ hc)
  IN  /\ m' = Call(c, m, e)
      /\ pc' = IF quit THEN "stop" ELSE IF m.pos + 1 = c.nc THEN after ELSE pc
      /\ UNCHANGED <<c, t, x, r, stopk, ck>>
(* the row printed at the end of an iteration *)
Printed(typ) == IF ~c.diag \/ (BUG = "row-missing" /\ typ = 0) THEN m
                ELSE Row(c, m, [num |-> IF BUG = "row-number" /\ typ = 2 THEN ck + 1 ELSE ck, typ |-> typ, fit |-> TRUE])
Cb == pc = "cb" /\ (IF c.nc = 0 THEN Goto("step") ELSE CallOne(FALSE, "step"))
Stop == pc = "stop" /\ Finish(1)
Advance == t' \in {t, t + 1}
Cap == t < 3
(* feasible mode refuses every step that leaves the strictly feasible region *)
Keep(y) == BUG = "leave-feasible" \/ ((c.feas /\ x.cip) => y.cip)
Step == /\ pc = "step"
        /\ \/ Finish(-4)
           \/ (c.kind = "newton" /\ Finish(-5))
           \/ (/\ x.der
               /\ \E y \in Iterate : (/\ Keep(y) /\ x' = y)
               /\ ck' = ck + 1 /\ pc' = "head" /\ r' = NoRes /\ m' = Printed(0)
               /\ (IF Cap THEN Advance ELSE UNCHANGED t)
               /\ UNCHANGED <<c, stopk>>)
           \/ (/\ c.kind # "newton" /\ x.der
               /\ r' = [on |-> TRUE, lv |-> x.lv, k |-> ck, cip |-> c.feas /\ x.cip, t |-> t]
               /\ (IF Cap THEN Advance ELSE UNCHANGED t)     \* the failed line search took its time
               /\ pc' = "rhead" /\ UNCHANGED <<c, x, stopk, ck, m>>)
RestHead == /\ pc = "rhead"
         /\ \/ Finish(IF x.lv = 0 THEN -5 ELSE -2)           \* converged: as feasible as it gets
            \/ (/\ ck < c.maxit /\ ~OverTime /\ ((~x.blown /\ Goto("rcb")) \/ Finish(-6)))
            \/ (ck >= c.maxit /\ Finish(-9))
            \/ (ck < c.maxit /\ OverTime /\ Finish(-10))
RCb == /\ pc = "rcb"
       /\ IF c.nc = 0 \/ (ck = r.k /\ BUG # "repeat-iteration") THEN Goto("rtest") ELSE CallOne(TRUE, "rtest")
RTest == /\ pc = "rtest"
         /\ \/ (/\ (x.lv < r.lv \/ BUG = "no-reduction") /\ (r.cip => x.cip) /\ x.der
                /\ ck' = ck + 1 /\ pc' = "head" /\ r' = [r EXCEPT !.on = FALSE]
                /\ (\E y \in Iterate : y.lv = x.lv /\ y.cip = x.cip /\ y.blown = x.blown /\ y.der = x.der /\ x' = y)
                /\ m' = Printed(0) /\ UNCHANGED <<c, t, stopk>>)
            \/ (x.lv < r.lv /\ ~x.der /\ Finish(-6))
            \/ Goto("rstep")
RStep == /\ pc = "rstep"
         /\ \/ Finish(-6)
            \/ (/\ \E y \in Iterate : x' = y
                /\ ck' = ck + 1 /\ pc' = "rhead" /\ (IF Cap THEN Advance ELSE UNCHANGED t)
                /\ m' = Printed(2) /\ UNCHANGED <<c, r, stopk>>)
Done == pc = "done" /\ UNCHANGED vars
Next == Start \/ LoopHead \/ Cb \/ Stop \/ Step \/ RestHead \/ RCb \/ RTest \/ RStep \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Accepted == m.rej = {}
Ended == (pc = "done") = m.ended
Terminates == <>(pc = "done")
===============================================================================
