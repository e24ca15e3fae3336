------------------------------ MODULE Multistart ------------------------------
(* Multistart: one caller, N guesses, each solved by its own concurrent task. A task is launched, runs, and
   finishes with the outcome <<status, cost>> the environment chose for it; tasks finish in any order. When all
   are done the caller returns one of the best results: the cheapest success if anything succeeded, otherwise
   the cheapest of all. *)
EXTENDS Integers, Sequences, FiniteSets, MultistartChoice, TLC, Json
CONSTANTS N, Costs, Failures
VARIABLES out,      \* guess -> outcome <<status, cost>>
          st,       \* guess -> "idle" | "running" | "done"
          order,    \* completion order
          ret       \* 0 or the guess whose result was returned
vars == <<out, st, order, ret>>

Init == /\ out \in [1..N -> ({Success} \union Failures) \X Costs]
        /\ st = [i \in 1..N |-> "idle"] /\ order = << >> /\ ret = 0
Launch == /\ \E i \in 1..N : st[i] = "idle" /\ (\A j \in 1..(i-1) : st[j] # "idle") /\ st' = [st EXCEPT ![i] = "running"]
          /\ UNCHANGED <<out, order, ret>>
(* completion orders are distinguished only once everything runs: a task that finishes before a later one is
   launched is the same history for the caller *)
Finish(i) == /\ st[i] = "running" /\ \A j \in 1..N : st[j] # "idle"
             /\ st' = [st EXCEPT ![i] = "done"] /\ order' = Append(order, i) /\ UNCHANGED <<out, ret>>
Return == /\ ret = 0 /\ \A i \in 1..N : st[i] = "done"
          /\ ret' \in Best(out, 1..N)
          /\ UNCHANGED <<out, st, order>>
          /\ ret' = CHOOSE i \in Best(out, 1..N) : TRUE
          /\ PrintT("@M" \o ToJson([o |-> out, q |-> order, b |-> Best(out, 1..N)]))
Next == Launch \/ (\E i \in 1..N : Finish(i)) \/ Return

(* what the caller may rely on *)
NoFailurePreferred == ret # 0 => NotFailed(out, ret, 1..N)
Cheapest == ret # 0 => LeastCost(out, ret, 1..N)
OnceEach == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
AllBeforeReturn == ret # 0 => Len(order) = N
===============================================================================
