-------------------------------- MODULE RegMinor --------------------------------
(* Sampled integer matrices of order 2..4 all of whose principal minors are nonzero, so that every elimination
   order has the same well-separated signature: such a matrix is left unshifted exactly when the signature is
   the required one. Its signature comes from the signs of the leading minors (Jacobi). *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANT NS
VARIABLE v
ES == <<0, 0, 1, -1, 2, -2, 3>>
DS == <<1, 2, 3, -1, -2, -3, 4, -4>>
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Det(_, _, _)
(* determinant of the submatrix with rows rs and columns cs (sets of equal size) *)
Det(A, rs, cs) ==
  IF rs = {} THEN 1
  ELSE LET r == SetMin(rs)
           RECURSIVE Go(_, _)
           Go(S, sg) == IF S = {} THEN 0
                        ELSE LET c == SetMin(S) IN sg * A[r][c] * Det(A, rs \ {r}, cs \ {c}) + Go(S \ {c}, -sg)
       IN  Go(cs, 1)
Principal(A, S) == Det(A, S, S)
Mat(i, N, n, m) ==
  LET q == Draw(i, 7, 3) # 0   \* bias: quasidefinite-looking diagonal
      dg(k) == LET x == Pick(i, 40 + k, DS) IN IF q THEN (IF k <= n THEN (IF x < 0 THEN -x ELSE x) + 2 ELSE (IF x < 0 THEN x ELSE -x)) ELSE x
      off(r, c) == Pick(i, 60 + 11 * r + c, ES)
  IN  [r \in 1..N |-> [c \in 1..N |-> IF r = c THEN dg(r) ELSE IF r > c THEN off(r, c) ELSE off(c, r)]]
Case(i) ==
  LET n == Draw(i, 1, 4)
      m == Draw(i, 2, 3)
      N == IF n + m > 4 THEN 4 ELSE n + m
      ne == IF n + m > 4 THEN 4 - n ELSE m
      A == Mat(i, N, n, ne)
      ok == \A S \in SUBSET (1..N) : Principal(A, S) # 0
      lead(k) == Principal(A, 1..k)
      neg == Cardinality({k \in 1..N : (lead(k) > 0) # (lead(k - 1) > 0)})
  IN  [n |-> n, m |-> ne, A |-> A, ok |-> ok, pos |-> N - neg, neg |-> neg,
       plain |-> (N - neg = n /\ neg = ne), hist |-> Draw(i, 3, 2)]
Init == v \in {Case(i) : i \in 1..NS}
Next == UNCHANGED v
Consistent == v.ok => ((v.neg % 2 = 0) <=> (Principal(v.A, 1..(v.n + v.m)) > 0))
Emit == v.ok => PrintT("@V" \o ToJson(v))
=============================================================================
