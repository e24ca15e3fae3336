---------------------------- MODULE RestoreProblem ----------------------------
(* The problem solved during feasibility restoration, and what its end means for the original problem.

     min  rho sum(p + n) + zeta/2 (x - xr)' Dr (x - xr)
     s.t. ce(x) - pe + ne = 0,  ci(x) - pi + ni >= 0 (if there are inequalities),  p, n >= 0
     rho = 1000, zeta = sqrt(max(mu, |ce|, |ci - s|)), Dr = diag(min(1, 1/xr^2))

   over (x, pe, ne[, pi, ni]). Constraint functions are b + a'x + x'diag(q)x/2 with small integers; the violation at
   the start is a perfect square so that zeta is rational. *)
EXTENDS Rat, Rand, FiniteSets, TLC, Json
CONSTANTS LO, HI
VARIABLE v
Z2(i, o, m, n, s) == [r \in 1..m |-> [c \in 1..n |-> Pick(i, o + 13 * r + c, s)]]
RECURSIVE SumI(_, _)
SumI(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumI(f, k - 1)
RECURSIVE SumR(_, _)
SumR(f, k) == IF k = 0 THEN <<0, 1>> ELSE RAdd(f[k], SumR(f, k - 1))
(* function value and gradient at the integer point x *)
Fn(b, a, q, x) == b + SumI([c \in 1..Len(x) |-> a[c] * x[c] + (q[c] \div 2) * x[c] * x[c]], Len(x))
Gr(a, q, x) == [c \in 1..Len(x) |-> a[c] + q[c] * x[c]]
Statuses == <<0, 0, 1, 1, 1, -1, -2, -4, -5, -6, -7, -8, -9, -10>>
Case(i) ==
  LET ipm == Draw(i, 1, 2) = 0
      n == Draw(i, 2, 3) + 1
      me == IF ipm THEN Draw(i, 3, 3) ELSE Draw(i, 3, 2) + 1
      mi == IF ipm THEN Draw(i, 4, 2) + 1 ELSE 0     \* without inequalities, Problem uses SQP
      xr == PickSeq(i, 5, n, <<0, 1, -1, 2, -3>>)
      x == PickSeq(i, 6, n, <<0, 1, -2, 3>>)
      xf == PickSeq(i, 7, n, <<0, 1, -1, 2>>)
      s == PickSeq(i, 8, mi, <<1, 2, 5>>)
      top == Pick(i, 9, <<0, 1, 4, 9>>)
      viol(o, k) == IF k = 1 THEN (IF Draw(i, o, 2) = 0 THEN top ELSE -top) ELSE (Draw(i, o + k, 2 * top + 1) - top)
      ae == Z2(i, 100, me, n, <<0, 1, -1, 2>>)   qe == Z2(i, 200, me, n, <<0, 0, 2, -2>>)
      ai == Z2(i, 300, mi, n, <<0, 1, -1, 2>>)   qi == Z2(i, 400, mi, n, <<0, 0, 2, -2>>)
      be == [k \in 1..me |-> viol(500, k) - Fn(0, ae[k], qe[k], xr)]
      bi == [k \in 1..mi |-> viol(520, k) + s[k] - Fn(0, ai[k], qi[k], xr)]
      zeta == CASE top = 0 -> <<1, 4>> [] top = 1 -> <<1, 1>> [] top = 4 -> <<2, 1>> [] top = 9 -> <<3, 1>>
      D == [c \in 1..n |-> IF xr[c] = 0 THEN <<1, 1>> ELSE R(1, xr[c] * xr[c])]
      np == 2 * me + 2 * mi
      pn == PickSeq(i, 10, np, <<1, 2, 3, 5>>)
      y == PickSeq(i, 11, me, <<0, 1, -1, 3>>)
      z == PickSeq(i, 12, mi + np, <<1, 2, 4>>)
      N == n + np
      d(c) == x[c] - xr[c]
      dx == [c \in 1..n |-> RMul(RMul(zeta, D[c]), RInt(d(c)))]
      P(k) == pn[k]     \* pe, ne, pi, ni
      ce == [k \in 1..me |-> Fn(be[k], ae[k], qe[k], x)]
      ci == [k \in 1..mi |-> Fn(bi[k], ai[k], qi[k], x)]
      hc(c) == 0 - SumI([k \in 1..me |-> y[k] * qe[k][c]], me) - SumI([k \in 1..mi |-> z[k] * qi[k][c]], mi)
      st == Pick(i, 13, Statuses)
      nan == st = 1 /\ Draw(i, 14, 4) = 0        \* derivatives not finite where restoration ends
      feasible == (\A k \in 1..me : Fn(be[k], ae[k], qe[k], xf) = 0) /\ (\A k \in 1..mi : Fn(bi[k], ai[k], qi[k], xf) >= 0)
  IN  [i |-> i, ipm |-> ipm, n |-> n, me |-> me, mi |-> mi, xr |-> xr, s |-> s, y0 |-> PickSeq(i, 15, me, <<0, 7>>), be |-> be, ae |-> ae, qe |-> qe, bi |-> bi, ai |-> ai, qi |-> qi,
       g |-> PickSeq(i, 16, n, <<0, 1, -1, 4>>), ident |-> Draw(i, 17, 2) = 0, de |-> PickSeq(i, 18, me, <<1, 2>>), di |-> PickSeq(i, 19, mi, <<1, 2>>),
       x |-> x, pn |-> pn, y |-> y, z |-> z, st |-> st, nan |-> nan, xf |-> xf, sf |-> PickSeq(i, 20, mi, <<1, 3>>),
       ncb |-> Draw(i, 21, 3), it |-> Draw(i, 22, 5),
       viole |-> [k \in 1..me |-> viol(500, k)], violi |-> [k \in 1..mi |-> viol(520, k)], mu |-> IF top = 0 THEN <<1, 16>> ELSE RInt(top),
       f |-> RAdd(RInt(1000 * SumI(pn, np)), RDiv(SumR([c \in 1..n |-> RMul(dx[c], RInt(d(c)))], n), <<2, 1>>)),
       gr |-> [c \in 1..N |-> IF c <= n THEN dx[c] ELSE <<1000, 1>>],
       H |-> [c \in 1..N |-> IF c <= n THEN RAdd(RMul(zeta, D[c]), RInt(hc(c))) ELSE <<0, 1>>],     \* diagonal
       ce |-> [k \in 1..me |-> ce[k] - P(k) + P(me + k)],
       Ae |-> [k \in 1..me |-> [c \in 1..N |-> IF c <= n THEN Gr(ae[k], qe[k], x)[c] ELSE IF c = n + k THEN -1 ELSE IF c = n + me + k THEN 1 ELSE 0]],
       ci |-> [k \in 1..mi |-> ci[k] - P(2 * me + k) + P(2 * me + mi + k)] \o pn,
       Ai |-> [k \in 1..(mi + np) |-> [c \in 1..N |->
                IF k > mi THEN (IF c = n + (k - mi) THEN 1 ELSE 0)
                ELSE IF c <= n THEN Gr(ai[k], qi[k], x)[c] ELSE IF c = n + 2 * me + k THEN -1 ELSE IF c = n + 2 * me + mi + k THEN 1 ELSE 0]],
       feasible |-> feasible,
       ret |-> CASE st = 1 -> (IF nan THEN -6 ELSE 0)
                 [] st = 0 -> (IF feasible THEN -5 ELSE -2)
                 [] st \in {-9, -10} -> st
                 [] OTHER -> -6]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
(* leaving restoration successfully or with a limit keeps the solve's meaning; everything else is a failure *)
Truthful == /\ (v.ret = 0 => v.st = 1) /\ (v.ret = -2 => ~v.feasible)
            /\ v.ret \in {0, -2, -5, -6, -9, -10}
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
