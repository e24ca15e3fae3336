---------------------------- MODULE MultistartBig ----------------------------
(* Multistart with many guesses: drawn outcomes and completion orders, judged by the same definitions as the
   exhaustively explored small ones. *)
EXTENDS Rand, FiniteSets, MultistartChoice, TLC, Json
CONSTANTS LO, HI
VARIABLE v
RECURSIVE Shuffle(_, _, _)
Shuffle(i, k, S) == IF S = {} THEN << >>
                    ELSE LET r == Draw(i, 300 + k, Cardinality(S))
                             x == CHOOSE x \in S : Cardinality({y \in S : y < x}) = r
                         IN <<x>> \o Shuffle(i, k + 1, S \ {x})
Case(i) ==
  LET n == Draw(i, 1, 20) + 5
      rare == Draw(i, 2, 3)                              \* how common success is
      costs == Pick(i, 3, << <<0, 1, 2, 3, 4, 5>>, <<1, 2, 3, 4>>, <<4, 4, 4, 5, 3>>, <<2, 5>> >>)
      out == TLCEval([k \in 1..n |-> << IF Draw(i, 100 + 3 * k, <<2, 8, 40>>[rare + 1]) = 0 THEN 0 ELSE Draw(i, 101 + 3 * k, 11) + 1,
                                Pick(i, 102 + 3 * k, costs) >>])
      order == CASE Draw(i, 4, 4) = 0 -> [k \in 1..n |-> k] [] Draw(i, 4, 4) = 1 -> [k \in 1..n |-> n + 1 - k]
                 [] OTHER -> Shuffle(i, 0, 1..n)
      best == CHOOSE k \in Best(out, 1..n) : TRUE
  IN  [i |-> i, n |-> n, out |-> out, order |-> order, ret |-> best]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
G == 1..v.n
NoFailurePreferred == NotFailed(v.out, v.ret, G)
Cheapest == LeastCost(v.out, v.ret, G)
OnceEach == {v.order[k] : k \in G} = G /\ Len(v.order) = v.n
Emit == PrintT("@M" \o ToJson([i |-> v.i, o |-> v.out, q |-> v.order, b |-> Best(v.out, G)]))
===============================================================================
