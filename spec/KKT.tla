---------------------------------- MODULE KKT ----------------------------------
(* The optimality error of equality/inequality constrained problems, and its invariance under scaling.

   A problem point is given by integers; a scaled problem multiplies the cost by 2^kf and each constraint row
   by a power of two, and its multipliers, slacks and barrier follow:
     y_s = y d_f / d_ce     z_s = z d_f / d_ci     s_s = d_ci s     mu_s = d_f mu
   Numbers of the scaled problem are dyadic pairs <<m, e>> = m * 2^e.                                       *)
EXTENDS Rat, Rand, FiniteSets, TLC, Json
CONSTANTS NS
VARIABLES pc, v, sc, s
vars == <<pc, v, sc, s>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Sum(f, S \ {k})
RECURSIVE MaxAbs(_, _)
MaxAbs(f, S) == IF S = {} THEN 0
                ELSE LET k == CHOOSE k \in S : TRUE
                         r == MaxAbs(f, S \ {k})
                     IN  IF AbsInt(f[k]) > r THEN AbsInt(f[k]) ELSE r
Abs1(f, S) == Sum([k \in S |-> AbsInt(f[k])], S)
GE == <<0, 1, -1, 2, -3, 5, -40>>
AE == <<0, 0, 1, -1, 2, -2>>
CE == <<0, 0, 1, -1, 3, -6, 90>>
YE == <<0, 1, -2, 3, -110, 250, -700>>
SE == <<1, 2, 3, 5, 80>>
ZE == <<1, 1, 2, 4, 150, 600>>
ME == <<1, 2, 3, 7>>
KE == <<0, 0, -1, -3, 2, 5>>
Mat(i, o, m, n) == [r \in 1..m |-> [c \in 1..n |-> Pick(i, o + 13 * r + c, AE)]]
Case(i) ==
  LET n == Draw(i, 1, 3) + 1
      kind == Pick(i, 2, <<"newton", "sqp", "ipm", "ipm">>)
      me == IF kind = "newton" THEN 0 ELSE Draw(i, 3, 4)
      mi == IF kind = "ipm" THEN Draw(i, 4, 4) ELSE 0
  IN  [kind |-> kind, n |-> n, me |-> me, mi |-> mi,
       g |-> PickSeq(i, 1, n, GE), Ae |-> Mat(i, 200, me, n), ce |-> PickSeq(i, 2, me, CE),
       y |-> PickSeq(i, 3, me, YE), Ai |-> Mat(i, 400, mi, n), ci |-> PickSeq(i, 4, mi, CE),
       s |-> PickSeq(i, 5, mi, SE), z |-> PickSeq(i, 6, mi, ZE), mu |-> Pick(i, 7, ME),
       kf |-> Pick(i, 8, KE), ke |-> PickSeq(i, 9, me, KE), ki |-> PickSeq(i, 10, mi, KE)]
AT(A, y, m, k) == Sum([r \in 1..m |-> A[r][k] * y[r]], 1..m)
Station(p) == [k \in 1..p.n |-> p.g[k] - AT(p.Ae, p.y, p.me, k) - AT(p.Ai, p.z, p.mi, k)]
Compl(p) == [k \in 1..p.mi |-> p.s[k] * p.z[k] - p.mu]
Gap(p) == [k \in 1..p.mi |-> p.ci[k] - p.s[k]]
(* s_d = max(100, (|y|_1 + |z|_1) / (m + n)) / 100 ; residual / s_d as a rational *)
Over(res, num, cnt) == IF cnt = 0 THEN RInt(res)
                       ELSE IF num <= 100 * cnt THEN RInt(res) ELSE R(res * 100 * cnt, num)
InfErr(p) ==
  LET st == MaxAbs(Station(p), 1..p.n)
      y1 == Abs1(p.y, 1..p.me)
      z1 == Abs1(p.z, 1..p.mi)
  IN  IF p.kind = "newton" THEN RInt(st)
      ELSE RMax(RMax(Over(st, y1 + z1, p.me + p.mi), Over(MaxAbs(Compl(p), 1..p.mi), z1, p.mi)),
                RMax(RInt(MaxAbs(p.ce, 1..p.me)), RInt(MaxAbs(Gap(p), 1..p.mi))))
OneErr(p) == Abs1(Station(p), 1..p.n) + Abs1(Compl(p), 1..p.mi) + Abs1(p.ce, 1..p.me) + Abs1(Gap(p), 1..p.mi)
D(m, e) == <<m, e>>
Scaled(p) ==
  [g |-> [k \in 1..p.n |-> D(p.g[k], p.kf)],
   Ae |-> [r \in 1..p.me |-> [k \in 1..p.n |-> D(p.Ae[r][k], p.ke[r])]],
   ce |-> [r \in 1..p.me |-> D(p.ce[r], p.ke[r])],
   y |-> [r \in 1..p.me |-> D(p.y[r], p.kf - p.ke[r])],
   Ai |-> [r \in 1..p.mi |-> [k \in 1..p.n |-> D(p.Ai[r][k], p.ki[r])]],
   ci |-> [r \in 1..p.mi |-> D(p.ci[r], p.ki[r])],
   s |-> [r \in 1..p.mi |-> D(p.s[r], p.ki[r])],
   z |-> [r \in 1..p.mi |-> D(p.z[r], p.kf - p.ki[r])],
   mu |-> D(p.mu, p.kf)]
(* what the solver does with the scaled quantities *)
M(x) == x[1]
E(x) == x[2]
Unscaled(p, q) ==
  LET U(x, e) == IF E(x) + e = 0 THEN M(x) ELSE (IF M(x) = 0 THEN 0 ELSE 99999)
  IN  [p EXCEPT !.g = [k \in 1..p.n |-> U(q.g[k], -p.kf)],
                !.Ae = [r \in 1..p.me |-> [k \in 1..p.n |-> U(q.Ae[r][k], -p.ke[r])]],
                !.ce = [r \in 1..p.me |-> U(q.ce[r], -p.ke[r])],
                !.y = [r \in 1..p.me |-> U(q.y[r], p.ke[r] - p.kf)],
                !.Ai = [r \in 1..p.mi |-> [k \in 1..p.n |-> U(q.Ai[r][k], -p.ki[r])]],
                !.ci = [r \in 1..p.mi |-> U(q.ci[r], -p.ki[r])],
                !.s = [r \in 1..p.mi |-> U(q.s[r], -p.ki[r])],
                !.z = [r \in 1..p.mi |-> U(q.z[r], p.ki[r] - p.kf)],
                !.mu = U(q.mu, -p.kf)]
Init == /\ pc = "orig"
        /\ v \in {Case(i) : i \in 1..NS}
        /\ s = [orig |-> 0]
        /\ sc = FALSE
DoScale == /\ pc = "orig" /\ pc' = "scaled" /\ sc' = TRUE /\ s' = Scaled(v) /\ UNCHANGED v
Spec == Init /\ [][DoScale]_vars
(* evaluated on the scaled problem the unscaled error is the error of the original problem *)
Invariance == pc = "scaled" => /\ InfErr(Unscaled(v, s)) = InfErr(v)
                               /\ OneErr(Unscaled(v, s)) = OneErr(v)
(* s_d, s_c only ever relax; the error vanishes exactly at KKT points *)
Relax == LET st == MaxAbs(Station(v), 1..v.n)
         IN  /\ RLe(InfErr(v), RInt(OneErr(v)))
             /\ (InfErr(v)[1] = 0 <=> OneErr(v) = 0)
Emit == PrintT("@V" \o ToJson([pc |-> pc, v |-> v, s |-> s, inf |-> InfErr(v), one |-> OneErr(v)]))
=============================================================================
