-------------------------------- MODULE KKTMag --------------------------------
(* The optimality error over magnitudes.  Each group of quantities has its own power of two; the powers are far enough
   apart that the largest one alone decides the maximum and (within rounding) the sum.  The Jacobians are zero, so that
   the residuals are  g / s_d,  (s z - mu) / s_c,  c_e  and  c_i - s,  with  s_d = max(100, mean |y, z|) / 100  and
   s_c = max(100, mean |z|) / 100.  A number is <<numerator, denominator, exponent>>. *)
EXTENDS Rat, Rand, FiniteSets, TLC, Json
CONSTANTS LO, HI
VARIABLES v
Powers == <<-320, -80, -80, 0, 0, 80, 240>>
GE == <<0, 1, -3, 5>>
CE == <<0, 0, 2, -3>>
YE == <<0, 1, -70, 200>>
SE == <<1, 2, 3, 7>>
ZE == <<1, 2, 60, 150, 400>>
XE == <<1, 2, 3, 7, -2, 0>>
ME == <<0, 0, 1, 2, 6>>
KE == <<0, 0, -1, -3, 2, 5>>
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + Sum(f, S \ {k})
Abs1(f) == Sum([k \in DOMAIN f |-> AbsInt(f[k])], DOMAIN f)
MaxAbs(f) == LET S == {AbsInt(f[k]) : k \in DOMAIN f} \cup {0} IN CHOOSE a \in S : \A b \in S : a >= b
Case(i) ==
  LET n == Draw(i, 1, 2) + 1   me == Draw(i, 3, 3)   mi == Draw(i, 4, 4)
      P(k) == Pick(i, 20 + k, Powers)
      same == Draw(i, 12, 3) = 0       \* feasible in the inequalities: c_i = s
      s == PickSeq(i, 5, mi, SE)
  IN  [n |-> n, me |-> me, mi |-> mi, g |-> PickSeq(i, 1, n, GE), ce |-> PickSeq(i, 2, me, CE), y |-> PickSeq(i, 3, me, YE),
       s |-> s, ci |-> IF same THEN s ELSE PickSeq(i, 4, mi, XE), z |-> PickSeq(i, 6, mi, ZE), mu |-> Pick(i, 7, ME),
       eg |-> P(1), ec |-> P(2), ey |-> P(3), es |-> P(4), ez |-> P(5), ident |-> Draw(i, 13, 3) = 0,
       kf |-> Pick(i, 8, KE), ke |-> PickSeq(i, 9, me, KE), ki |-> PickSeq(i, 10, mi, KE)]
(* res 2^e over the relaxation max(100, num 2^en / cnt) / 100 *)
Over(res, e, num, en, cnt) ==
  IF res = 0 THEN <<0, 1, 0>>
  ELSE IF num = 0 \/ en < 0 \/ (en = 0 /\ num <= 100 * cnt) THEN <<res, 1, e>>
  ELSE <<res * 100 * cnt, num, e - en>>
Big(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
             ELSE IF a[3] # b[3] THEN (IF a[3] > b[3] THEN a ELSE b)
             ELSE IF a[1] * b[2] >= b[1] * a[2] THEN a ELSE b
Plus(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE IF a[3] # b[3] THEN Big(a, b) ELSE <<a[1] + b[1], 1, a[3]>>
Compl(p) == [k \in 1..p.mi |-> p.s[k] * p.z[k] - p.mu]
Gap(p) == [k \in 1..p.mi |-> p.ci[k] - p.s[k]]
Mean(p) == LET y == <<Abs1(p.y), 1, p.ey>>  z == <<Abs1(p.z), 1, p.ez>> IN Plus(y, z)
Inf(p) == LET m == Mean(p) IN
          Big(Big(Over(MaxAbs(p.g), p.eg, m[1], m[3], p.me + p.mi),
                  Over(MaxAbs(Compl(p)), p.es + p.ez, Abs1(p.z), p.ez, p.mi)),
              Big(<<MaxAbs(p.ce), 1, p.ec>>, <<MaxAbs(Gap(p)), 1, p.es>>))
One(p) == Plus(Plus(<<Abs1(p.g), 1, p.eg>>, <<Abs1(Compl(p)), 1, p.es + p.ez>>),
               Plus(<<Abs1(p.ce), 1, p.ec>>, <<Abs1(Gap(p)), 1, p.es>>))
(* the quantities as the solver holds them, scaled by d_f = 2^kf and d_c = 2^k *)
Held(p) == LET f == IF p.ident THEN 0 ELSE p.kf
               a(r) == IF p.ident THEN 0 ELSE p.ke[r]
               b(r) == IF p.ident THEN 0 ELSE p.ki[r]
           IN  [g |-> [k \in 1..p.n |-> <<p.g[k], p.eg + f>>], ce |-> [r \in 1..p.me |-> <<p.ce[r], p.ec + a(r)>>],
                y |-> [r \in 1..p.me |-> <<p.y[r], p.ey + f - a(r)>>], ci |-> [r \in 1..p.mi |-> <<p.ci[r], p.es + b(r)>>],
                s |-> [r \in 1..p.mi |-> <<p.s[r], p.es + b(r)>>], z |-> [r \in 1..p.mi |-> <<p.z[r], p.ez + f - b(r)>>],
                mu |-> <<p.mu, p.es + p.ez + f>>]
Init == v \in {Case(i) : i \in LO..HI}
Next == FALSE /\ v' = v
Spec == Init /\ [][Next]_v
(* zero exactly at optimal points; never smaller than a residual of feasibility *)
Sane == /\ (Inf(v)[1] = 0) <=> (One(v)[1] = 0)
        /\ (One(v)[1] = 0) <=> (MaxAbs(v.g) = 0 /\ MaxAbs(v.ce) = 0 /\ MaxAbs(Compl(v)) = 0 /\ MaxAbs(Gap(v)) = 0)
Emit == PrintT("@V" \o ToJson([v |-> v, h |-> Held(v), inf |-> Inf(v), one |-> One(v)]))
=============================================================================
