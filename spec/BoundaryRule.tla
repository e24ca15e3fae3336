----------------------------- MODULE BoundaryRule -----------------------------
(* Fraction-to-the-boundary rule: scan the components in any order, keeping the largest fraction in (0, 1]
   for which every scanned component stays at or above (1 - tau) of its old value. *)
EXTENDS Rat, FiniteSets, TLC, Json
CONSTANTS N, Xs, Ps, Taus
VARIABLES x, p, tau, todo, alpha
vars == <<x, p, tau, todo, alpha>>
Init == /\ \E n \in 0..N : x \in [1..n -> Xs] /\ p \in [1..n -> Ps] /\ todo = 1..n
        /\ tau \in Taus
        /\ alpha = <<1, 1>>
(* x_i + a p_i >= (1 - tau) x_i   <=>   a p_i >= -tau x_i *)
Ok(a, i) == RLe(RMul(RNeg(tau), RInt(x[i])), RMul(a, RInt(p[i])))
Limit(i) == RDiv(RMul(tau, RInt(x[i])), RInt(-p[i]))
Scan(i) == /\ i \in todo
           /\ todo' = todo \ {i}
           /\ alpha' = IF Ok(alpha, i) THEN alpha ELSE Limit(i)
           /\ UNCHANGED <<x, p, tau>>
First == CHOOSE i \in todo : \A j \in todo : i <= j
CONSTANT AnyOrder
Next == (IF AnyOrder THEN \E i \in todo : Scan(i) ELSE (todo # {} /\ Scan(First)))
Spec == Init /\ [][Next]_vars
Done == todo = {}
InRange == RLt(<<0, 1>>, alpha) /\ RLe(alpha, <<1, 1>>)
Sound == Done => \A i \in DOMAIN x : Ok(alpha, i)
(* the result is the largest such fraction: it is 1, or some component sits exactly on its boundary and
   would cross it with any larger fraction *)
Maximal == Done => \/ alpha = <<1, 1>>
                   \/ \E i \in DOMAIN x : p[i] < 0 /\ RMul(alpha, RInt(p[i])) = RMul(RNeg(tau), RInt(x[i]))
Emit == Done => PrintT("@V" \o ToJson([x |-> x, p |-> p, tau |-> tau, a |-> alpha]))
=============================================================================
