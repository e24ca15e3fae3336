------------------------------ MODULE PyOptions ------------------------------
(* The keyword arguments of solve() in Python, on problems whose iterates are known.      *)
(* Minimising x^4 from 1, Newton's method visits (2/3)^k with gradient 4 (8/27)^k, so a     *)
(* tolerance between the gradients at k-1 and k stops it exactly at k, unless the iteration *)
(* limit or the user's callback comes first.  In feasible mode, from a feasible start, no     *)
(* iterate leaves the feasible set.  A keyword solve() does not have is refused before        *)
(* anything runs.                                                                             *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES k, cap, stop, it, st
Success == 0
CallbackStop == 1
Limit == -9
None == 99
vars == <<k, cap, stop, it, st>>
Init == /\ k \in 0..14 /\ cap \in {None} \cup 0..16 /\ stop \in {None, 0, 3, 9} /\ it = 0 /\ st = None
(* one turn of the loop: done, out of iterations, stopped by the callback, or one step further *)
Turn == /\ st = None
        /\ IF it >= k THEN st' = Success /\ UNCHANGED it
           ELSE IF cap # None /\ it >= cap THEN st' = Limit /\ UNCHANGED it
           ELSE IF stop = it THEN st' = CallbackStop /\ UNCHANGED it
           ELSE it' = it + 1 /\ UNCHANGED st
        /\ UNCHANGED <<k, cap, stop>>
Next == Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(st # None)
Bounded == it <= k /\ (cap # None => it <= cap) /\ (stop # None => it <= stop)
(* only the tolerance lets a solve end in success, and then at the first point good enough *)
Exact == st = Success <=> (it = k /\ st # None)
(* the names the package gives its enumerators, and the numbers they stand for; only those of ExitStatus are published *)
Names == <<
  [e |-> "ExitStatus", n |-> <<"SUCCESS", "CALLBACK_REQUESTED_STOP", "TOO_FEW_DOFS", "LOCALLY_INFEASIBLE", "GLOBALLY_INFEASIBLE", "FACTORIZATION_FAILED",
     "LINE_SEARCH_FAILED", "FEASIBILITY_RESTORATION_FAILED", "NONFINITE_INITIAL_GUESS", "DIVERGING_ITERATES", "MAX_ITERATIONS_EXCEEDED", "TIMEOUT">>,
   v |-> <<0, 1, -1, -2, -3, -4, -5, -6, -7, -8, -9, -10>>],
  [e |-> "ExpressionType", n |-> <<"NONE", "CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR">>, v |-> <<0, 1, 2, 3, 4>>],
  [e |-> "DynamicsType", n |-> <<"EXPLICIT_ODE", "DISCRETE">>, v |-> <<0, 1>>],
  [e |-> "TimestepMethod", n |-> <<"FIXED", "VARIABLE", "VARIABLE_SINGLE">>, v |-> <<0, 1, 2>>],
  [e |-> "TranscriptionMethod", n |-> <<"DIRECT_TRANSCRIPTION", "DIRECT_COLLOCATION", "SINGLE_SHOOTING">>, v |-> <<0, 1, 2>>] >>
ASSUME \A t \in 1..Len(Names) : LET r == Names[t] IN Len(r.n) = Len(r.v) /\ (\A a, b \in 1..Len(r.v) : a # b => r.v[a] # r.v[b] /\ r.n[a] # r.n[b]) /\ PrintT("@N" \o ToJson(r))
Emit == st # None => PrintT("@O" \o ToJson([k |-> k, cap |-> cap, stop |-> stop, it |-> it, st |-> st]))
=============================================================================
