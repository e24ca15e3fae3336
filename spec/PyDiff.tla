------------------------------- MODULE PyDiff -------------------------------
(* First and second derivatives in Python: of one quadratic function, or of a column   *)
(* of them, with respect to a variable, a column or a view, at a history of points.     *)
EXTENDS Integers, Sequences, TLC, Json, Rand
CONSTANTS LO, HI
VARIABLE v
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Coef == <<0, 0, 1, -1, 2, -3>>
(* f_r(x) = sum_{i <= j} q[r][i][j] x_i x_j + sum_i l[r][i] x_i + d_r *)
Case(i) ==
  LET n == Draw(i, 1, 4) + 1
      what == Pick(i, 2, <<"grad", "hess", "jac", "jac">>)
      m == IF what = "jac" THEN Draw(i, 3, 3) + 1 ELSE 1
  IN  [i |-> i, n |-> n, m |-> m, what |-> what, arity |-> Draw(i, 4, 3),
       wrt |-> IF n = 1 /\ m = 1 THEN Pick(i, 5, <<"var", "mat", "view", "elem">>) ELSE Pick(i, 5, <<"mat", "view", "list">>),
       of |-> IF m = 1 THEN Pick(i, 6, <<"var", "var", "mat">>) ELSE Pick(i, 6, <<"mat", "list">>),
       q |-> [r \in 1..m |-> [a \in 1..n |-> [b \in 1..n |-> IF a <= b THEN Pick(i, 100 * r + 10 * a + b, Coef) ELSE 0]]],
       l |-> [r \in 1..m |-> [a \in 1..n |-> Pick(i, 500 + 10 * r + a, Coef)]], d |-> [r \in 1..m |-> Draw(i, 600 + r, 5) - 2],
       pts |-> [p \in 1..3 |-> [a \in 1..n |-> Draw(i, 700 + 10 * p + a, 9) - 4]]]
First(c, r, x) == [a \in 1..c.n |-> c.l[r][a] + Sum([b \in 1..c.n |-> (c.q[r][a][b] + c.q[r][b][a]) * x[b]], c.n)]
Second(c, r) == [a \in 1..c.n |-> [b \in 1..c.n |-> c.q[r][a][b] + c.q[r][b][a]]]
Answer(c, x) == CASE c.what = "grad" -> [a \in 1..c.n |-> <<First(c, 1, x)[a]>>]
                  [] c.what = "jac" -> [r \in 1..c.m |-> First(c, r, x)]
                  [] c.what = "hess" -> Second(c, 1)
Value(c, r, x) == c.d[r] + Sum([a \in 1..c.n |-> c.l[r][a] * x[a]], c.n)
                  + Sum([a \in 1..c.n |-> Sum([b \in 1..c.n |-> c.q[r][a][b] * x[a] * x[b]], c.n)], c.n)
(* a quadratic is its second-order expansion: the derivatives reproduce the function along every unit step *)
Expansion == \A r \in 1..v.m, a \in 1..v.n, p \in 1..3 :
  LET x == v.pts[p]  y == [x EXCEPT ![a] = @ + 1]
  IN 2 * (Value(v, r, y) - Value(v, r, x)) = 2 * First(v, r, x)[a] + Second(v, r)[a][a]
Symmetric == \A r \in 1..v.m : \A a, b \in 1..v.n : Second(v, r)[a][b] = Second(v, r)[b][a]
Init == v \in {Case(i) : i \in LO..HI}
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v
Emit == PrintT("@D" \o ToJson([c |-> v, ans |-> [p \in 1..3 |-> Answer(v, v.pts[p])]]))
=============================================================================
