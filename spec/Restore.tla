-------------------------------- MODULE Restore --------------------------------
(* Start and end of feasibility restoration.
   (1) relaxation variables p, n of one violated row, exactly: with rho c = 3t, mu = 4t (Pythagorean data) the square
       root is rational;
   (2) block assembly: the triplets appended for blocks stacked below one another, column by column;
   (3) multiplier estimates: least-squares solutions known by construction. *)
EXTENDS Rat, Rand, FiniteSets, TLC, Json
CONSTANT NS
VARIABLE v
(* (x, y, h): x^2 + y^2 = h^2 *)
Pyth == <<<<0, 1, 1>>, <<3, 4, 5>>, <<4, 3, 5>>, <<5, 12, 13>>, <<12, 5, 13>>, <<8, 15, 17>>, <<20, 21, 29>>, <<7, 24, 25>>, <<9, 40, 41>>, <<40, 9, 41>>>>
Row(i, k) == LET t == Pick(i, 20 + k, Pyth)  sg == IF Draw(i, 40 + k, 2) = 0 THEN 1 ELSE -1
             IN  [x |-> sg * t[1], y |-> t[2], h |-> t[3]]
(* n = (mu - rho c + h) / (2 rho); p = c + n;  mu is common, so rows share y by scaling *)
PN(r, rho) == [n |-> R(r.y - r.x + r.h, 2 * rho), p |-> R(r.y + r.x + r.h, 2 * rho), c |-> R(r.x, rho)]
Rhos == <<1, 2, 1000, 10, 7>>
CaseA(i) ==
  LET m == Draw(i, 1, 4)
      y == Pick(i, 2, <<12, 24, 60>>)
      rho == Pick(i, 3, Rhos)
      T == CASE y = 12 -> <<0, 5, 9, 16, 35>> [] y = 24 -> <<0, 7, 10, 18, 32>> [] y = 60 -> <<0, 11, 25, 32, 45, 63, 80, 91>>
      H == CASE y = 12 -> <<12, 13, 15, 20, 37>> [] y = 24 -> <<24, 25, 26, 30, 40>> [] y = 60 -> <<60, 61, 65, 68, 75, 87, 100, 109>>
      row(k) == LET q == Draw(i, 20 + k, Len(T)) + 1
                    sg == IF Draw(i, 40 + k, 2) = 0 THEN 1 ELSE -1
                IN  [x |-> sg * T[q], y |-> y, h |-> H[q]]
  IN  [k |-> "pn", rho |-> rho, mu |-> y, rows |-> [k \in 1..m |-> PN(row(k), rho)]]
Ent == <<0, 0, 1, -1, 2, 3, -2>>
Mat(i, o, m, n) == [r \in 1..m |-> [c \in 1..n |-> Pick(i, o + 13 * r + c, Ent)]]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
NonZero(A, m, c, ro, co) ==
  LET RECURSIVE Go(_)
      Go(r) == IF r > m THEN <<>> ELSE (IF A[r][c] # 0 THEN <<<<ro + r - 1, co + c - 1, A[r][c]>>>> ELSE <<>>) \o Go(r + 1)
  IN  Go(1)
RECURSIVE Offs(_, _)
Offs(ms, k) == IF k = 1 THEN 0 ELSE Offs(ms, k - 1) + Len(ms[k - 1])
CaseB(i) ==
  LET nb == Draw(i, 1, 4) + 1
      n == Draw(i, 2, 4)
      ms == [b \in 1..nb |-> Mat(i, 100 * b, Draw(i, 10 + b, 3), n)]
      ro == Draw(i, 3, 4)
      co == Draw(i, 4, 4)
      col(c) == Flat([b \in 1..nb |-> NonZero(ms[b], Len(ms[b]), c, ro + Offs(ms, b), co)])
      dg == PickSeq(i, 7, Draw(i, 5, 4), Ent)
  IN  [k |-> "trip", ms |-> ms, n |-> n, ro |-> ro, co |-> co, t |-> Flat([c \in 1..n |-> col(c)]),
       dg |-> dg, dt |-> [q \in 1..Len(dg) |-> <<ro + q - 1, co + q - 1, dg[q]>>]]
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Sum(f, S \ {k})
(* equality estimate: rows are unit-like and full rank: A = [I | B]; residual r = (-B q, q) is orthogonal to the rows *)
CaseC(i) ==
  LET m == Draw(i, 1, 3) + 1
      e == Draw(i, 2, 3)
      n == m + e
      B == Mat(i, 100, m, e)
      y == PickSeq(i, 5, m, <<0, 1, -2, 3, 5>>)
      q == PickSeq(i, 6, e, <<0, 1, -1, 2>>)
      A == [r \in 1..m |-> [c \in 1..n |-> IF c <= m THEN (IF c = r THEN 1 ELSE 0) ELSE B[r][c - m]]]
      res(c) == IF c <= m THEN -Sum([d \in 1..e |-> B[c][d] * q[d]], 1..e) ELSE q[c - m]
      g == [c \in 1..n |-> Sum([r \in 1..m |-> A[r][c] * y[r]], 1..m) + res(c)]
  IN  [k |-> "eq", n |-> n, A |-> A, g |-> g, y |-> y,
       orth |-> \A r \in 1..m : Sum([c \in 1..n |-> A[r][c] * res(c)], 1..n) = 0]
(* equalities and inequalities: A_e = [I | B], residual r as above, r2 = A_i r / s, z = (mu + r2) / s *)
CaseD(i, m0) ==
  LET me == Draw(i, 1, 3)
      e == Draw(i, 2, 2) + 1
      mi == Draw(i, 3, 2) + 1
      n == me + e
      B == Mat(i, 100, me, e)
      y == PickSeq(i, 5, me, <<0, 1, -2, 3>>)
      q == PickSeq(i, 6, e, <<0, 0, 1, -1>>)
      Ae == [r \in 1..me |-> [c \in 1..n |-> IF c <= me THEN (IF c = r THEN 1 ELSE 0) ELSE B[r][c - me]]]
      Ai == Mat(i, 300, mi, n)
      s == PickSeq(i, 7, mi, <<1, 2, 4>>)
      mu == m0
      res(c) == IF c <= me THEN -Sum([d \in 1..e |-> B[c][d] * q[d]], 1..e) ELSE q[c - me]
      air(r) == Sum([c \in 1..n |-> Ai[r][c] * res(c)], 1..n)
      \* z = (mu + air/s)/s = (mu s + air)/s^2
      z == [r \in 1..mi |-> R(mu * s[r] + air(r), s[r] * s[r])]
      g16(c) == 16 * (Sum([r \in 1..me |-> Ae[r][c] * y[r]], 1..me) + res(c)) +
                Sum([r \in 1..mi |-> Ai[r][c] * ((16 * z[r][1]) \div z[r][2])], 1..mi)
  IN  [k |-> "ipm", n |-> n, Ae |-> Ae, Ai |-> Ai, s |-> s, mu |-> mu, y |-> y, g16 |-> [c \in 1..n |-> g16(c)],
       z |-> z, neg |-> [r \in 1..mi |-> z[r][1] <= 0]]
Barrier(i) == Pick(i, 8, <<4, 8, 16>>)
(* a barrier of 2^-e, so small that multipliers leave the ratio [1e-10, 1e10] to mu / s: the estimate for mu = 0 held within it.
   `at` is where z ends: -1 at the lower end, 0 inside, 1 at the upper end (z s against 1e10 / 2^e; z s is a multiple of 1/4) *)
CaseF(i) ==
  LET d == CaseD(i, 0)
      e == Pick(i, 17, <<34, 34, 60, 100>>)
      \* 10^10 / 2^34 = 0.58..
      above(q, s) == (e >= 60 /\ q[1] > 0) \/ (e = 34 /\ q[1] * s * 2 > q[2])
      at == [r \in DOMAIN d.z |-> IF d.z[r][1] < 0 THEN -1 ELSE IF d.z[r][1] > 0 /\ above(d.z[r], d.s[r]) THEN 1 ELSE 0]
  IN  [k |-> "tiny", n |-> d.n, Ae |-> d.Ae, Ai |-> d.Ai, s |-> d.s, e |-> e, y |-> d.y, g16 |-> d.g16, z |-> d.z, at |-> at]
(* linearly dependent gradients: a zero row somewhere among the equalities; the estimate must stay finite and small *)
CaseE(i) ==
  LET c == IF Draw(i, 1, 2) = 0 THEN CaseC(i) ELSE CaseD(i, Barrier(i))
      A == IF c.k = "eq" THEN c.A ELSE c.Ae
      at == Draw(i, 9, Len(A) + 1)
      zero == [k \in 1..c.n |-> 0]
      D == SubSeq(A, 1, at) \o <<zero>> \o SubSeq(A, at + 1, Len(A))
  IN  [k |-> "dep", n |-> c.n, Ae |-> D, ipm |-> c.k = "ipm", g16 |-> IF c.k = "eq" THEN [q \in 1..c.n |-> 16 * c.g[q]] ELSE c.g16,
       Ai |-> IF c.k = "eq" THEN <<>> ELSE c.Ai, s |-> IF c.k = "eq" THEN <<>> ELSE c.s, mu |-> IF c.k = "eq" THEN 1 ELSE c.mu]
Case(i) == IF i % 9 = 8 THEN CaseE(i) ELSE IF i % 9 = 5 THEN CaseF(i) ELSE LET w == i % 4 IN IF w = 0 THEN CaseA(i) ELSE IF w = 1 THEN CaseB(i) ELSE IF w = 2 THEN CaseC(i) ELSE CaseD(i, Barrier(i))
Init == v \in {Case(i) : i \in 1..NS}
Next == UNCHANGED v
(* p and n are positive, cancel the violation, and lie on the central path of the relaxed problem:
   stationarity  rho = y + mu/p,  rho = -y + mu/n  gives  2 rho = mu/p + mu/n *)
RelaxOk == v.k = "pn" => \A q \in DOMAIN v.rows :
   LET r == v.rows[q] IN /\ RLt(<<0, 1>>, r.p) /\ RLt(<<0, 1>>, r.n) /\ RSub(r.p, r.n) = r.c
                         /\ RAdd(RDiv(RInt(v.mu), r.p), RDiv(RInt(v.mu), r.n)) = RInt(2 * v.rho)
EqOk == v.k = "eq" => v.orth
TripOk == v.k = "trip" => \A a, b \in DOMAIN v.t : a < b => (v.t[a][2] < v.t[b][2] \/ (v.t[a][2] = v.t[b][2] /\ v.t[a][1] < v.t[b][1]))
Emit == PrintT("@V" \o ToJson(v))
=============================================================================
