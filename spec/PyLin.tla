-------------------------------- MODULE PyLin --------------------------------
(* Linear algebra from Python: systems A X = B with a known integer solution, matrix       *)
(* exponentials of nilpotent matrices (finite sums), and the kind of each expression.       *)
EXTENDS Integers, Sequences, TLC, Json, Rand
CONSTANTS LO, HI
VARIABLE v
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Mul(A, B, n, m, p) == TLCEval([a \in 1..n |-> [b \in 1..p |-> Sum([c \in 1..m |-> A[a][c] * B[c][b]], m)]])
Lower(i, n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN Pick(i, 10 * a, <<1, -1, 2>>) ELSE IF b < a THEN Draw(i, 20 + 7 * a + b, 5) - 2 ELSE 0]]
Upper(i, n) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 1 ELSE IF b > a THEN Draw(i, 120 + 7 * a + b, 5) - 2 ELSE 0]]
Strict(i, n) == [a \in 1..n |-> [b \in 1..n |-> IF b > a THEN Draw(i, 220 + 7 * a + b, 5) - 2 ELSE 0]]
(* twice the exponential of a strictly triangular 3 x 3 matrix *)
Exp2(N, n) == LET S == Mul(N, N, n, n, n) IN [a \in 1..n |-> [b \in 1..n |-> (IF a = b THEN 2 ELSE 0) + 2 * N[a][b] + S[a][b]]]
Flip(N, n) == [a \in 1..n |-> [b \in 1..n |-> N[b][a]]]
Kinds == <<"constant", "linear", "quadratic", "nonlinear">>
(* a product's degree is the sum of its factors' degrees *)
Type(deg) == CASE deg = 0 -> 1 [] deg = 1 -> 2 [] deg = 2 -> 3 [] OTHER -> 4
Case(i) ==
  CASE i % 3 = 0 ->
       LET n == Draw(i, 1, 5) + 1  p == Draw(i, 2, 3) + 1
           A == Mul(Lower(i, n), Upper(i, n), n, n, n)
           X == [a \in 1..n |-> [b \in 1..p |-> Draw(i, 320 + 7 * a + b, 7) - 3]]
       IN  [i |-> i, k |-> "solve", A |-> A, B |-> Mul(A, X, n, n, p), X |-> X]
    [] i % 3 = 1 ->
       LET n == Draw(i, 1, 3) + 1  N == IF Draw(i, 2, 2) = 0 THEN Strict(i, n) ELSE Flip(Strict(i, n), n)
       IN  [i |-> i, k |-> "exp", A |-> N, X2 |-> Exp2(N, n)]
    [] OTHER ->
       LET f == [t \in 1..(Draw(i, 1, 3) + 1) |-> [q \in 1..Draw(i, 10 * t, 4) |-> Draw(i, 10 * t + q, 3) + 1]]   \* a sum of monomials
           d == CHOOSE m \in 0..4 : (\A t \in DOMAIN f : Len(f[t]) <= m) /\ (\E t \in DOMAIN f : Len(f[t]) = m)
       IN  [i |-> i, k |-> "type", f |-> f, ty |-> Type(d)]
Init == v \in {Case(i) : i \in LO..HI}
Next == FALSE /\ UNCHANGED v
Spec == Init /\ [][Next]_v
(* exp(N) exp(-N) = I *)
Inverse == v.k = "exp" => LET n == Len(v.A)  M == [a \in 1..n |-> [b \in 1..n |-> 0 - v.A[a][b]]]
                         IN Mul(v.X2, Exp2(M, n), n, n, n) = [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN 4 ELSE 0]]
Emit == PrintT("@A" \o ToJson(v))
=============================================================================
