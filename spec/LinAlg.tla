-------------------------------- MODULE LinAlg --------------------------------
(* Linear solves and matrix exponentials of expression matrices, posed backwards so that the answers are exact.
   Solve: A = P L D U with unit triangular L, U, signs D and a permutation P has an integer inverse; B = A X for a drawn X.
   The expression is built while the variables hold other values (zeros, a triangle of A, other numbers) and then asked at one or
   two points for X and for the derivatives dX[a,b]/dA[r,c] = -Ainv[a,r] X[c,b], dX[a,b]/dB[r,b] = Ainv[a,r].
   Exp: A = T (D + N) Tinv with integer eigenvalues on D and ones above equal neighbours in N, so that every entry of exp(A) is
   the sum over the eigenvalues w of (a number of sixths) times e^w. *)
EXTENDS Rand, Integers, Sequences, TLC, Json
CONSTANTS LO, HI
VARIABLE i
Init == i = LO
Next == i < HI /\ i' = i + 1
Spec == Init /\ [][Next]_i
RECURSIVE Add(_, _, _)
Add(f, a, b) == IF a > b THEN 0 ELSE f[a] + Add(f, a + 1, b)
RECURSIVE Dot(_, _, _, _, _)
Dot(A, B, r, c, k) == IF k = 0 THEN 0 ELSE A[r][k] * B[k][c] + Dot(A, B, r, c, k - 1)
Mat(n, m, F(_, _)) == TLCEval([r \in 1..n |-> TLCEval([c \in 1..m |-> F(r, c)])])
Prod(A0, B0) == LET A == TLCEval(A0)  B == TLCEval(B0)  n == Len(B) IN TLCEval([r \in 1..Len(A) |-> TLCEval([c \in 1..Len(B[1]) |-> Dot(A, B, r, c, n)])])
Id(n) == Mat(n, n, LAMBDA r, c : IF r = c THEN 1 ELSE 0)
Tri(n, o) == Mat(n, n, LAMBDA r, c : IF r = c THEN 1 ELSE IF r < c THEN 0 ELSE Pick(i, o + r * 7 + c, <<0, 1, -1, 0, 2>>))
Transp(A0) == LET A == TLCEval(A0) IN Mat(Len(A[1]), Len(A), LAMBDA r, c : A[c][r])
(* inverse of a unit lower triangular matrix, row by row *)
RECURSIVE LowInv(_, _, _)
LowInv(L, r, done) == IF r > Len(L) THEN done
  ELSE LowInv(L, r + 1, TLCEval(Append(done, [c \in 1..Len(L) |-> IF c > r THEN 0 ELSE IF c = r THEN 1 ELSE -Add([k \in 1..(r - 1) |-> L[r][k] * done[k][c]], 1, r - 1)])))
Inv(L) == LowInv(L, 1, << >>)
(* row permutation by a rotation or a reversal *)
Perm(n, o) == LET k == Draw(i, o, 4)  h == Draw(i, o + 1, n) IN
  Mat(n, n, LAMBDA r, c : IF (IF k = 0 THEN r = c ELSE IF k = 1 THEN c = n + 1 - r ELSE ((r + h - 1) % n) + 1 = c) THEN 1 ELSE 0)
Sgn(n, o) == Mat(n, n, LAMBDA r, c : IF r # c THEN 0 ELSE IF Draw(i, o + r, 3) = 0 THEN -1 ELSE 1)
Unimod(n, o) == LET P == TLCEval(Perm(n, o))  L == TLCEval(Tri(n, o + 10))  D == TLCEval(Sgn(n, o + 80))  U == TLCEval(Tri(n, o + 100))
                IN  [a |-> Prod(P, Prod(L, Prod(D, Transp(U)))), inv |-> Prod(Transp(Inv(U)), Prod(D, Prod(Inv(L), Transp(P))))]
Flat(A0) == LET A == TLCEval(A0) IN [k \in 1..(Len(A) * Len(A[1])) |-> A[((k - 1) \div Len(A[1])) + 1][((k - 1) % Len(A[1])) + 1]]
-----------------------------------------------------------------------------
N == Pick(i, 1, <<1, 2, 3, 4, 5, 5, 6, 6, 7>>)
Q == Draw(i, 2, 3) + 1
(* constants among the elements: none, the zeros, or some *)
Consts == Pick(i, 3, <<"none", "none", "zeros", "some">>)
Points == IF Consts = "none" THEN 2 ELSE 1
OutR == Draw(i, 4, N) + 1
OutC == Draw(i, 5, Q) + 1
Point(k) == LET u == TLCEval(Unimod(N, 1000 * k))  X == Mat(N, Q, LAMBDA r, c : Draw(i, 1000 * k + 300 + 7 * r + c, 7) - 3)
            IN  [a |-> u.a, inv |-> u.inv, x |-> X, b |-> Prod(u.a, X)]
IsC(A, r, c, o) == CASE Consts = "none" -> FALSE [] Consts = "zeros" -> A[r][c] = 0 [] Consts = "some" -> Draw(i, o + 11 * r + c, 3) = 0
Build == Pick(i, 6, <<"zero", "zero", "upper", "other", "same", "diag">>)
Start(A, r, c, o) == CASE Build = "zero" -> 0 [] Build = "upper" -> (IF r <= c THEN A[r][c] ELSE 0) [] Build = "diag" -> (IF r = c THEN 2 ELSE 0)
                       [] Build = "other" -> Draw(i, o + 9 * r + c, 9) - 4 [] Build = "same" -> A[r][c]
(* elements the reader makes constant are 1, others 0; derivatives of the output with respect to the elements in row-major order *)
SolveCase ==
  LET p1 == TLCEval(Point(1))  pts == TLCEval([k \in 1..Points |-> TLCEval(IF k = 1 THEN p1 ELSE Point(k))]) IN
  [op |-> "solve", n |-> N, q |-> Q, out |-> <<OutR - 1, OutC - 1>>, build |-> Build, consts |-> Consts,
   ca |-> Flat(Mat(N, N, LAMBDA r, c : IF IsC(p1.a, r, c, 3000) THEN 1 ELSE 0)),
   cb |-> Flat(Mat(N, Q, LAMBDA r, c : IF IsC(p1.b, r, c, 3200) THEN 1 ELSE 0)),
   sa |-> Flat(Mat(N, N, LAMBDA r, c : Start(p1.a, r, c, 3400))), sb |-> Flat(Mat(N, Q, LAMBDA r, c : Draw(i, 3600 + 5 * r + c, 5) - 2)),
   pts |-> [k \in 1..Points |-> [a |-> Flat(pts[k].a), b |-> Flat(pts[k].b), x |-> Flat(pts[k].x),
             da |-> Flat(Mat(N, N, LAMBDA r, c : -(pts[k].inv[OutR][r] * pts[k].x[c][OutC]))),
             db |-> Flat(Mat(N, Q, LAMBDA r, c : IF c = OutC THEN pts[k].inv[OutR][r] ELSE 0))]]]
Inverses == \A k \in 1..Points : LET u == TLCEval(Unimod(N, 1000 * k)) IN Prod(u.a, u.inv) = Id(N) /\ Prod(u.inv, u.a) = Id(N)
-----------------------------------------------------------------------------
M == Draw(i, 7, 4) + 1
Eig == TLCEval([k \in 1..M |-> LET RECURSIVE E(_) E(j) == IF j = 1 \/ Draw(i, 20 + j, 2) = 0 THEN Draw(i, 30 + j, 5) - 2 ELSE E(j - 1) IN E(k)])
Nil == Mat(M, M, LAMBDA r, c : IF c = r + 1 /\ Eig[r] = Eig[c] /\ Draw(i, 40 + r, 3) # 0 THEN 1 ELSE 0)
Simil == LET L == TLCEval(IF Draw(i, 5050, 2) = 0 THEN Id(M) ELSE Tri(M, 5000))  U == Mat(M, M, LAMBDA r, c : IF r = c THEN 1 ELSE IF c = r + 1 /\ Draw(i, 5100, 2) = 0 THEN Draw(i, 5100 + r, 2) ELSE 0)
         IN  [t |-> Prod(L, U), inv |-> Prod(Transp(Inv(Transp(U))), Inv(L))]
(* six times the exponential of the nilpotent part: 6 I + 6 N + 3 N^2 + N^3 *)
Exp6 == LET N2 == Prod(Nil, Nil)  N3 == Prod(N2, Nil) IN Mat(M, M, LAMBDA r, c : (IF r = c THEN 6 ELSE 0) + 6 * Nil[r][c] + 3 * N2[r][c] + N3[r][c])
(* the part that e^w multiplies: N never leaves an eigenvalue's rows *)
PartOf(w, s0) == LET s == TLCEval(s0) IN Prod(s.t, Prod(Mat(M, M, LAMBDA r, c : IF Eig[r] = w THEN Exp6[r][c] ELSE 0), s.inv))
Abs(a) == IF a < 0 THEN -a ELSE a
ExpOf(s0) == LET s == TLCEval(s0) IN Prod(s.t, Prod(Mat(M, M, LAMBDA r, c : (IF r = c THEN Eig[r] ELSE 0) + Nil[r][c]), s.inv))
Norm(A) == LET RECURSIVE W(_) W(c) == IF c = 0 THEN 0 ELSE LET q == Add([r \in 1..Len(A) |-> Abs(A[r][c])], 1, Len(A)) r == W(c - 1) IN IF q > r THEN q ELSE r IN W(Len(A))
Triangular(A) == (\A r, c \in 1..Len(A) : r > c => A[r][c] = 0) \/ (\A r, c \in 1..Len(A) : r < c => A[r][c] = 0)
(* beyond the range of a Pade approximant without scaling nothing is said *)
ExpCase == LET s == TLCEval(Simil)  A == TLCEval(ExpOf(s)) IN
  [op |-> "exp", n |-> M, a |-> Flat(A), small |-> Norm(A) <= 5,
   \* triangular ones may be built at zero, the others at the values themselves (a row order chosen elsewhere may not suit them)
   start |-> [k \in 1..(M * M) |-> IF Triangular(A) /\ Draw(i, 8, 3) # 0 THEN 0 ELSE A[((k - 1) \div M) + 1][((k - 1) % M) + 1]],
   c |-> [k \in 1..(M * M) |-> IF Draw(i, 9, 3) = 0 /\ A[((k - 1) \div M) + 1][((k - 1) % M) + 1] = 0 THEN 1 ELSE 0],
   e |-> [w \in 1..5 |-> Flat(PartOf(w - 3, s))]]
(* the parts of exp commute with A, and the similarity transformation is one *)
Commutes == LET s == TLCEval(Simil)  A == TLCEval(ExpOf(s)) IN
            /\ Prod(s.t, s.inv) = Id(M)
            /\ \A w \in -2..2 : LET E == TLCEval(PartOf(w, s)) IN Prod(A, E) = Prod(E, A)
Emit == PrintT("@S" \o ToJson(SolveCase)) /\ PrintT("@E" \o ToJson(ExpCase))
=============================================================================
