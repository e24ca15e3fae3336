-------------------------------- MODULE Infeas --------------------------------
(* Local infeasibility predicates on integer matrices and violation vectors times powers of two:
   the violation is c * 2^ec, the Jacobian A * 2^ea, so that squared norms are integers times powers of four. *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANT NS, MaxR, MaxC
VARIABLE v
Ent == <<0, 0, 1, -1, 2, -2, 3>>
CEnt == <<0, 1, -1, 2, -2, -3, 4>>
EA == <<0, 0, 0, -5, 3, -13>>
EC == <<0, 0, -3, -6, -7, -8, -10, -18, -19, -20, -21, -22>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Sum(f, S \ {k})
Mat(i, m, n) == [r \in 1..m |-> [c \in 1..n |-> Pick(i, 10 + 13 * r + c, Ent)]]
(* bias towards vanishing products: repeat a row with the opposite sign, or drop rows *)
Biased(A, i, m, n) == LET k == Draw(i, 3, 4)
                      IN  IF m >= 2 /\ k = 0 THEN [A EXCEPT ![2] = [c \in 1..n |-> -A[1][c]]]
                          ELSE IF m >= 2 /\ k = 1 THEN [A EXCEPT ![m] = A[1]]
                          ELSE IF k = 2 THEN [r \in 1..m |-> [c \in 1..n |-> 0]]
                          ELSE A
Neg(x) == IF x < 0 THEN x ELSE 0
ATc(A, c, m, n) == [k \in 1..n |-> Sum([r \in 1..m |-> A[r][k] * c[r]], 1..m)]
Sq(w, D) == Sum([k \in D |-> w[k] * w[k]], D)
(* largest integer N with sqrt(N) * 2^e < 10^-6, i.e. N * 4^e < 10^-12 *)
SmallMax(e) == CASE e >= -19 -> 0 [] e = -20 -> 1 [] e = -21 -> 4 [] e = -22 -> 17 [] e = -23 -> 70
                 [] e = -24 -> 281 [] e = -25 -> 1125 [] e = -26 -> 4503 [] e = -27 -> 18014
                 [] OTHER -> 72057
(* smallest integer N with sqrt(N) * 2^e > 10^-2 *)
Big2Min(e) == CASE e >= -6 -> 1 [] e = -7 -> 2 [] e = -8 -> 7 [] e = -9 -> 27 [] e = -10 -> 105 [] OTHER -> 1000000
Eq(A, c, m, n, ea, ec) ==
  /\ m > 0
  /\ Sq(ATc(A, c, m, n), 1..n) <= SmallMax(ea + ec)
  /\ Sq(c, 1..m) >= Big2Min(ec)
Ineq(A, c, m, n, ea, ec) ==
  LET w == [k \in 1..m |-> Neg(c[k])]
  IN  /\ m > 0
      /\ Sq(ATc(A, w, m, n), 1..n) <= SmallMax(ea + ec)
      /\ Sq(w, 1..m) >= Big2Min(ec)
Case(i) ==
  LET m == Draw(i, 1, MaxR + 1)
      n == Draw(i, 2, MaxC) + 1
      A == Biased(Mat(i, m, n), i, m, n)
      c == [k \in 1..m |-> Pick(i, 300 + k, CEnt)]
      ea == Pick(i, 4, EA)
      ec == Pick(i, 5, EC)
  IN  [m |-> m, n |-> n, A |-> A, c |-> c, ea |-> ea, ec |-> ec,
       eq |-> Eq(A, c, m, n, ea, ec), ineq |-> Ineq(A, c, m, n, ea, ec),
       expl |-> Draw(i, 6, 3) = 0]
Init == v \in {Case(i) : i \in 1..NS}
Next == UNCHANGED v
(* feasible points are never infeasible; neither is a point whose violation decreases to first order *)
Feasible == (\A k \in 1..v.m : v.c[k] = 0) => ~v.eq
FeasibleI == (\A k \in 1..v.m : v.c[k] >= 0) => ~v.ineq
Reducible == (v.ea + v.ec >= -19 /\ \E k \in 1..v.n : ATc(v.A, v.c, v.m, v.n)[k] # 0) => ~v.eq
(* satisfied inequalities are irrelevant *)
Irrelevant == \A k \in 1..v.m : v.c[k] >= 0 =>
   v.ineq = Ineq([v.A EXCEPT ![k] = [j \in 1..v.n |-> 7]], [v.c EXCEPT ![k] = 5], v.m, v.n, v.ea, v.ec)
Emit == PrintT("@V" \o ToJson(v))
=============================================================================
