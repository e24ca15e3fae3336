-------------------------------- MODULE Scaling --------------------------------
(* Automatic scale factors and the exact row-wise norms / finiteness test they rest on.
   Matrix entries are drawn from finite values and the tokens INF, NINF, NAN (for the norm part only). *)
EXTENDS Rat, Rand, FiniteSets, TLC, Json
CONSTANTS NS
VARIABLE v
INF == 1000001
NAN == 1000003
GE == <<0, 1, -3, 99, 100, -100, 101, -1000, 25000, -101, 0, 7>>
RECURSIVE MaxAbsS(_, _)
MaxAbsS(f, S) == IF S = {} THEN 0
                 ELSE LET k == CHOOSE k \in S : TRUE
                          r == MaxAbsS(f, S \ {k})
                      IN  IF AbsInt(f[k]) > r THEN AbsInt(f[k]) ELSE r
(* stored pattern: an entry may be absent, stored as an explicit zero, or stored *)
ENT == <<0, 0, 1, -2, 100, -101, 250, -5000, 99, INF, -INF, NAN>>
FIN == <<0, 0, 1, -2, 100, -101, 250, -5000, 99, 3, -7, 40>>
Mat(i, o, m, n, es) == [r \in 1..m |-> [c \in 1..n |-> Pick(i, o + 13 * r + c, es)]]
Stored(i, o, A, m, n) == [r \in 1..m |-> [c \in 1..n |-> A[r][c] # 0 \/ Draw(i, o + 17 * r + 5 * c, 3) = 0]]
RowNorm(A, r, n) == MaxAbsS([c \in 1..n |-> A[r][c]], 1..n)
Fac(norm) == IF norm <= 100 THEN <<1, 1>> ELSE R(100, norm)
(* the same with every entry multiplied by 2^e (|e| large), as <<numerator, denominator, exponent>> *)
FacE(norm, e) == IF e = 0 THEN Fac(norm) \o <<0>> ELSE IF e < 0 \/ norm = 0 THEN <<1, 1, 0>> ELSE LET q == R(100, norm) IN <<q[1], q[2], -e>>
Exps == <<0, 0, 0, 0, 40, 300, -40, -300>>
Case(i) ==
  LET n == Draw(i, 1, 4) + 1
      me == Draw(i, 2, 5)
      mi == Draw(i, 3, 5)
      kind == Pick(i, 4, <<"newton", "sqp", "ipm", "ipm">>)
      g == PickSeq(i, 1, n, GE)
      Ae == Mat(i, 200, me, n, FIN)
      Ai == Mat(i, 500, mi, n, FIN)
      eg == Pick(i, 7, Exps)  ee == Pick(i, 8, Exps)  ei == Pick(i, 9, Exps)
      B == Mat(i, 700, me + 1, n, IF Draw(i, 5, 3) = 0 THEN FIN ELSE ENT)
  IN  [kind |-> kind, n |-> n, me |-> me, mi |-> mi, g |-> g,
       Ae |-> Ae, Aes |-> Stored(i, 210, Ae, me, n), Ai |-> Ai, Ais |-> Stored(i, 510, Ai, mi, n),
       e |-> <<eg, ee, ei>>,
       f |-> FacE(MaxAbsS(g, 1..n), eg),
       de |-> [r \in 1..me |-> FacE(RowNorm(Ae, r, n), ee)], di |-> [r \in 1..mi |-> FacE(RowNorm(Ai, r, n), ei)],
       id |-> LET fid == FacE(MaxAbsS(g, 1..n), eg) = <<1, 1, 0>>
              IN  fid /\ (kind = "newton" \/ me = 0) /\ (kind # "ipm" \/ mi = 0),
       B |-> B, Bs |-> Stored(i, 710, B, me + 1, n),
       norms |-> [r \in 1..(me + 1) |-> RowNorm(B, r, n)],
       fin |-> \A r \in 1..(me + 1), c \in 1..n : AbsInt(B[r][c]) < INF,
       mode |-> Pick(i, 6, <<"col", "colu", "row", "rowu", "vec">>)]
Init == v \in {Case(i) : i \in 1..NS}
Next == UNCHANGED v
UnitInterval == \A x \in {v.f} \cup {v.de[r] : r \in 1..v.me} \cup {v.di[r] : r \in 1..v.mi} :
                   RLt(<<0, 1>>, <<x[1], x[2]>>) /\ (x[3] <= -40 \/ RLe(<<x[1], x[2]>>, <<1, 1>>)) /\ x[3] <= 0
(* the scaled row has largest magnitude at most 100, exactly 100 when it was reduced *)
Caps == \A r \in 1..v.me : LET nrm == RowNorm(v.Ae, r, v.n)
                              IN IF v.de[r] = <<1, 1, 0>> THEN v.e[2] < 0 \/ nrm = 0 \/ (v.e[2] = 0 /\ nrm <= 100)
                                 ELSE v.de[r][3] = -v.e[2] /\ RMul(<<v.de[r][1], v.de[r][2]>>, RInt(nrm)) = <<100, 1>>
Emit == PrintT("@V" \o ToJson(v))
=============================================================================
