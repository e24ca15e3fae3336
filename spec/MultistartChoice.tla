--------------------------- MODULE MultistartChoice ---------------------------
(* Which result a multistart may return; out maps each guess to its outcome <<status, cost>>. *)
EXTENDS Integers
Success == 0
Best(out, D) == LET ok == {i \in D : out[i][1] = Success}
                    S == IF ok # {} THEN ok ELSE D
                IN {i \in S : \A j \in S : out[i][2] <= out[j][2]}
(* what the caller may rely on *)
NotFailed(out, r, D) == out[r][1] # Success => \A i \in D : out[i][1] # Success
LeastCost(out, r, D) == \A i \in D : (out[i][1] = out[r][1] \/ out[i][1] = Success) =>
                          (out[r][1] = Success /\ out[i][1] # Success) \/ out[r][2] <= out[i][2]
===============================================================================
