-------------------------------- MODULE Threads --------------------------------
(* Threads that share no objects. Each runs its own program of building expressions, changing variables, asking for values
   and derivatives, dropping handles and solving problems; a solve may lose control at its iteration callbacks. The shared
   state is a schedule: whatever it is, a thread observes what it would observe alone.

   f_n(x) = sum_{k=1..n} (x + k) x;  the k-th kind of problem has minimiser x = a. *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANTS LO, HI, LEN, NT, ALL
VARIABLES i, pc, sub, mem, obs, sched
T == 1..NT
vars == <<i, pc, sub, mem, obs, sched>>
Op(c, t, k) == LET o == Pick(c, 50 * t + 3 * k, <<"e", "e", "v", "g", "h", "d", "s", "s", "c">>)
               IN  [o |-> IF k = 1 /\ o \in {"d", "v", "g", "h"} THEN "e" ELSE o, n |-> Pick(c, 50 * t + 3 * k + 1, <<1, 2, 3, 40, 1500>>), a |-> Draw(c, 50 * t + 3 * k + 2, 9) - 4]
Prog == [c \in LO..HI |-> [t \in T |-> [k \in 1..(LEN - Draw(c, 7 + t, 2)) |-> Op(c, t, k)]]]
Val(n, x) == n * x * x + ((n * (n + 1)) \div 2) * x
Der(n, x) == 2 * n * x + (n * (n + 1)) \div 2
(* what an operation shows, and its effect on the thread's own objects [slots, x] *)
Show(op, m) ==
  IF op.o \in {"e", "c"} THEN <<Val(op.n, op.a)>>
  ELSE IF op.o = "v" THEN [k \in DOMAIN m.slots |-> Val(m.slots[k], op.a)]
  ELSE IF op.o = "g" THEN [k \in DOMAIN m.slots |-> Der(m.slots[k], m.x)]
  ELSE IF op.o = "h" THEN [k \in DOMAIN m.slots |-> 2 * m.slots[k]]
  ELSE IF op.o = "d" THEN <<IF m.slots = <<>> THEN 0 ELSE Len(m.slots) - 1>>
  ELSE <<0, op.a>>
Do(op, m) ==
  IF op.o = "e" THEN [slots |-> Append(m.slots, op.n), x |-> op.a]
  ELSE IF op.o \in {"v", "c"} THEN [m EXCEPT !.x = op.a]
  ELSE IF op.o = "d" THEN [m EXCEPT !.slots = IF @ = <<>> THEN <<>> ELSE SubSeq(@, 2, Len(@))]
  ELSE m
Init == /\ i \in LO..HI /\ pc = [t \in T |-> 1] /\ sub = [t \in T |-> 0] /\ mem = [t \in T |-> [slots |-> <<>>, x |-> 0]] /\ obs = [t \in T |-> <<>>] /\ sched = <<>>
Live == {t \in T : pc[t] <= Len(Prog[i][t])}
RECURSIVE Nth(_, _)
Nth(S, k) == LET m == CHOOSE x \in S : \A y \in S : x <= y IN IF k = 0 THEN m ELSE Nth(S \ {m}, k - 1)
(* a solve takes three turns: to the first callback, to the second, to the end *)
Turn(t) == LET op == Prog[i][t][pc[t]] IN
  /\ sched' = Append(sched, t) /\ i' = i
  /\ IF op.o = "s" /\ sub[t] < 2 THEN sub' = [sub EXCEPT ![t] = @ + 1] /\ UNCHANGED <<pc, mem, obs>>
     ELSE /\ sub' = [sub EXCEPT ![t] = 0] /\ pc' = [pc EXCEPT ![t] = @ + 1]
          /\ mem' = [mem EXCEPT ![t] = Do(op, @)] /\ obs' = [obs EXCEPT ![t] = Append(@, Show(op, mem[t]))]
Next == Live # {} /\ IF ALL THEN \E t \in Live : Turn(t) ELSE Turn(Nth(Live, Draw(i, 900 + Len(sched), Cardinality(Live))))
(* alone, with nobody else *)
RECURSIVE Alone(_, _, _)
Alone(p, k, m) == IF k = 0 THEN <<<<>>, m>> ELSE LET r == Alone(p, k - 1, m) IN <<Append(r[1], Show(p[k], r[2])), Do(p[k], r[2])>>
Independent == \A t \in T : <<obs[t], mem[t]>> = Alone(Prog[i][t], pc[t] - 1, [slots |-> <<>>, x |-> 0])
Emit == Live = {} => PrintT("@V" \o ToJson([i |-> i, prog |-> Prog[i], sched |-> sched, obs |-> obs]))
===============================================================================
