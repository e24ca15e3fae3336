---------------------------------- MODULE Ocp ----------------------------------
(* What each transcription method constrains, in exact rationals.

   The dynamics are f_r(t, x, u, h) = sum_c A[r][c] x_c + u_r + sum B[r][c] u_{ns+c} + ct_r t + ch_r h + d_r + q_r x_p u_s:
   every argument the method passes matters.  A case is a feasible trajectory (states, inputs, time steps) under the
   stated discretisation, together with single-entry changes of it and the specification's verdict on each.

   A free input u_r in every component lets a collocation trajectory be completed: with the states chosen, the end
   point's inputs solve the collocation equations one component after the other (A lower triangular). *)
EXTENDS Rand, Rat, FiniteSets, TLC, Json
CONSTANTS LO, HI
VARIABLE v
RECURSIVE RSum(_, _)
RSum(f, k) == IF k = 0 THEN <<0, 1>> ELSE RAdd(f[k], RSum(f, k - 1))
H(n) == R(n, 2)
VAdd(a, b) == TLCEval([r \in DOMAIN a |-> RAdd(a[r], b[r])])
VScale(s, a) == TLCEval([r \in DOMAIN a |-> RMul(s, a[r])])
F(p, t, x, u, h) == TLCEval([r \in 1..p.ns |->
   LET lin == RSum([c \in 1..p.ns |-> RMul(RInt(p.A[r][c]), x[c])], p.ns)
       inp == RAdd(u[r], RSum([c \in 1..(p.nu - p.ns) |-> RMul(RInt(p.B[r][c]), u[p.ns + c])], p.nu - p.ns))
       aff == RAdd(RAdd(RMul(RInt(p.ct[r]), t), RMul(RInt(p.ch[r]), h)), RInt(p.d[r]))
   IN  RAdd(RAdd(lin, inp), RAdd(aff, RMul(RInt(p.q[r]), RMul(x[p.p[r]], u[p.s[r]]))))])
(* fourth-order Runge-Kutta *)
Rk4(p, t, x, u, h) ==
  LET hh == RMul(H(1), h)
      k1 == F(p, t, x, u, h)
      k2 == F(p, RAdd(t, hh), VAdd(x, VScale(hh, k1)), u, h)
      k3 == F(p, RAdd(t, hh), VAdd(x, VScale(hh, k2)), u, h)
      k4 == F(p, RAdd(t, h), VAdd(x, VScale(h, k3)), u, h)
  IN  VAdd(x, VScale(RMul(R(1, 6), h), VAdd(VAdd(k1, k4), VScale(RInt(2), VAdd(k2, k3)))))
Step(p, t, x, u, h) == IF p.dyn = "discrete" THEN F(p, t, x, u, h) ELSE Rk4(p, t, x, u, h)
(* cubic through both ends with the ODE's slopes there; the ODE holds at its midpoint *)
Mid(p, t, xb, xe, ub, ue, h) ==
  LET fb == F(p, t, xb, ub, h)
      fe == F(p, RAdd(t, h), xe, ue, h)
      slope == VAdd(VScale(RDiv(R(3, 2), h), VAdd(xe, VScale(RInt(-1), xb))), VScale(R(-1, 4), VAdd(fb, fe)))
      xc == VAdd(VScale(H(1), VAdd(xb, xe)), VScale(RMul(R(1, 8), h), VAdd(fb, VScale(RInt(-1), fe))))
      fc == F(p, RAdd(t, RMul(H(1), h)), xc, VScale(H(1), VAdd(ub, ue)), h)
  IN  VAdd(slope, VScale(RInt(-1), fc))
Defect(p, t, xb, xe, ub, ue, h) == IF p.m = "collocation" THEN Mid(p, t, xb, xe, ub, ue, h) ELSE VAdd(xe, VScale(RInt(-1), Step(p, t, xb, ub, h)))
Time(dt, k) == RSum(dt, k - 1)
Feasible(p, X, U, dt) == \A k \in 1..p.N : \A r \in 1..p.ns : Defect(p, Time(dt, k), X[k], X[k + 1], U[k], U[k + 1], dt[k])[r] = <<0, 1>>
(* inputs at the end of a collocation step, component by component: the defect is affine in each *)
RECURSIVE Solve(_, _, _, _, _, _, _, _)
Solve(p, t, xb, xe, ub, ue, h, r) ==
  IF r > p.ns THEN ue
  ELSE LET at(w) == Mid(p, t, xb, xe, ub, [ue EXCEPT ![r] = w], h)[r]
           d0 == at(<<0, 1>>)  d1 == RSub(at(<<1, 1>>), d0)
       IN  Solve(p, t, xb, xe, ub, [ue EXCEPT ![r] = RDiv(RNeg(d0), d1)], h, r + 1)
Ints(s) == [k \in DOMAIN s |-> RInt(s[k])]
RECURSIVE Forward(_, _, _, _, _), Colloc(_, _, _, _, _)
Forward(p, X, U, dt, k) == IF k > p.N THEN X ELSE Forward(p, Append(X, Step(p, Time(dt, k), X[k], U[k], dt[k])), U, dt, k + 1)
Colloc(p, X, U, dt, k) == IF k > p.N THEN U
                          ELSE Colloc(p, X, [U EXCEPT ![k + 1] = Solve(p, Time(dt, k), X[k], X[k + 1], U[k], U[k + 1], dt[k], 1)], dt, k + 1)
Unit == <<0, 0, 1, -1>>
Prob(i) ==
  LET m == Pick(i, 1, <<"transcription", "collocation", "shooting">>)
      dyn == IF m = "collocation" \/ Draw(i, 2, 3) > 0 THEN "explicit" ELSE "discrete"
      N == IF m = "collocation" THEN Draw(i, 3, 2) + 1 ELSE Draw(i, 3, 3) + 1
      ns == Draw(i, 4, 2) + 1
      nu == ns + Draw(i, 5, 2)
      four == Draw(i, 6, 3) > 0
  IN  [m |-> m, dyn |-> dyn, N |-> N, ns |-> ns, nu |-> nu, four |-> four, ts |-> Pick(i, 7, <<"fixed", "single", "variable">>),
       A |-> [r \in 1..ns |-> [c \in 1..ns |-> IF c > r THEN 0 ELSE Pick(i, 20 + 3 * r + c, Unit)]],
       B |-> [r \in 1..ns |-> [c \in 1..(nu - ns) |-> Draw(i, 30 + 3 * r + c, 3) - 1]],
       ct |-> [r \in 1..ns |-> IF four THEN Pick(i, 40 + r, Unit) ELSE 0], ch |-> [r \in 1..ns |-> IF four THEN Pick(i, 44 + r, Unit) ELSE 0],
       d |-> [r \in 1..ns |-> Draw(i, 48 + r, 3) - 1],
       \* bilinear term: an earlier state (or, alone, the state itself) times an input
       q |-> [r \in 1..ns |-> IF Draw(i, 52 + r, 3) = 0 /\ (m # "collocation" \/ (r > 1 /\ nu > ns)) THEN 1 ELSE 0],
       p |-> [r \in 1..ns |-> 1], s |-> [r \in 1..ns |-> nu]]
Dts(i, p) == LET pal == IF p.m = "collocation" THEN (IF p.N = 1 THEN <<<<1, 1>>, <<2, 1>>, <<4, 1>>, <<1, 2>>>> ELSE <<<<1, 1>>, <<2, 1>>, <<4, 1>>>>)
                        ELSE IF p.dyn = "discrete" THEN <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 1>>>>
                        ELSE IF p.N = 1 THEN <<<<1, 2>>, <<1, 1>>, <<2, 1>>, <<3, 1>>, <<6, 1>>>>
                             ELSE IF p.N = 2 THEN <<<<1, 1>>, <<2, 1>>, <<2, 1>>>>
                             ELSE IF \E r \in 1..p.ns : p.q[r] # 0 THEN <<<<2, 1>>, <<2, 1>>>> ELSE <<<<2, 1>>, <<2, 1>>, <<4, 1>>>>
                 one == Pick(i, 60, pal)
             IN  [k \in 1..(p.N + 1) |-> IF p.ts = "variable" THEN Pick(i, 60 + k, pal) ELSE one]
Traj(i, p) ==
  LET dt == TLCEval(Dts(i, p))
      U0 == TLCEval([k \in 1..(p.N + 1) |-> Ints(PickSeq(i, 70 + 7 * k, p.nu, IF p.N = 1 THEN <<0, 1, -1, 1, 2>> ELSE <<0, 1, -1, 1>>))])
      x0 == Ints(PickSeq(i, 100, p.ns, <<1, -1, 2, 0>>))
  IN  IF p.m = "collocation"
      THEN LET X == <<x0>> \o [k \in 1..p.N |-> Ints(PickSeq(i, 110 + 7 * k, p.ns, <<1, -1, 2, 0, 3>>))]
           IN  [X |-> X, U |-> Colloc(p, X, U0, dt, 1), dt |-> dt]
      ELSE [X |-> Forward(p, <<x0>>, U0, dt, 1), U |-> U0, dt |-> dt]
(* change one entry *)
Bump(i, o, p, T) ==
  LET what == Pick(i, o, IF p.ts = "fixed" THEN <<"x", "u">> ELSE <<"x", "u", "t">>)
      k == Draw(i, o + 1, p.N + 1) + 1
      r == Draw(i, o + 2, IF what = "x" THEN p.ns ELSE p.nu) + 1
      T2 == IF what = "x" THEN [T EXCEPT !.X[k][r] = RAdd(@, <<1, 1>>)]
            ELSE IF what = "u" THEN [T EXCEPT !.U[k][r] = RAdd(@, <<1, 1>>)]
            ELSE IF p.ts = "single" THEN [T EXCEPT !.dt = [q \in DOMAIN @ |-> RAdd(@[q], <<1, 1>>)]]
            ELSE [T EXCEPT !.dt[k] = RAdd(@, <<1, 1>>)]
  IN  [T |-> T2, ok |-> Feasible(p, T2.X, T2.U, T2.dt)]
Big(t) == \E k \in DOMAIN t.X : \E r \in DOMAIN t.X[k] : AbsI(t.X[k][r][1]) > 20000 \/ t.X[k][r][2] > 1000
Traced(i) ==
  LET p == TLCEval(Prob(i))
      T == TLCEval(Traj(i, p))
      \* a trajectory whose inputs have grown too large for exact arithmetic is not perturbed
      far == Big(T) \/ Big([X |-> T.U])
  IN  [k |-> "traj", p |-> p, T |-> T, far |-> far, times |-> [k \in 1..(p.N + 1) |-> Time(T.dt, k)],
       bumps |-> IF p.m = "shooting" THEN <<>> ELSE [b \in 1..(IF far THEN 0 ELSE 4) |-> Bump(i, 200 + 10 * b, p, T)],
       end |-> IF p.m = "collocation" \/ far THEN "none" ELSE IF p.dyn = "explicit" /\ Draw(i, 8, 3) = 0 THEN "final" ELSE "initial",
       arg |-> Draw(i, 9, 3), style |-> Draw(i, 10, 3),
       \* type of the dynamics constraints
       linear |-> p.ts = "fixed" /\ \A r \in 1..p.ns : p.q[r] = 0]
(* bounds: the cost pulls every input (and time step) to a target; the answer is the target clamped into the bounds *)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Bounded(i) ==
  LET nu == Draw(i, 1, 2) + 1  N == Draw(i, 2, 3) + 1
      scalar == Draw(i, 3, 2) = 0
      hasLo == Draw(i, 4, 4) > 0  hasHi == Draw(i, 5, 4) > 0
      lo == [r \in 1..nu |-> IF ~hasLo THEN -1000 ELSE (IF scalar THEN 0 ELSE r) - 2]
      hi == [r \in 1..nu |-> IF ~hasHi THEN 1000 ELSE (IF scalar THEN 0 ELSE r) + 1]
      tg == [k \in 1..(N + 1) |-> PickSeq(i, 10 + 5 * k, nu, <<-5, 0, 1, 6, 2>>)]
      ts == Pick(i, 6, <<"fixed", "single", "variable">>)
      lim == Draw(i, 7, 3)       \* no limits, lower, both
      td == [k \in 1..(N + 1) |-> IF ts = "single" THEN Draw(i, 50, 6) + 1 ELSE Draw(i, 50 + k, 6) + 1]
      dlo == IF lim > 0 THEN 2 ELSE 0  dhi == IF lim > 1 THEN 4 ELSE 1000
  IN  [k |-> "bound", nu |-> nu, N |-> N, m |-> Draw(i, 8, 3), ts |-> ts, scalar |-> scalar, hasLo |-> hasLo, hasHi |-> hasHi, lo |-> lo, hi |-> hi, tg |-> tg,
       lim |-> lim, dlo |-> dlo, dhi |-> dhi, td |-> td, dt0 |-> Draw(i, 9, 2) + 2,
       U |-> [k \in 1..(N + 1) |-> [r \in 1..nu |-> Clamp(tg[k][r], lo[r], hi[r])]],
       dt |-> [k \in 1..(N + 1) |-> IF ts = "fixed" THEN Draw(i, 9, 2) + 2 ELSE Clamp(td[k], dlo, dhi)]]
Case(i) == [i |-> i, c |-> IF i % 4 = 3 THEN Bounded(i) ELSE Traced(i)]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
Holds == v.c.k = "traj" /\ ~v.c.far => Feasible(v.c.p, v.c.T.X, v.c.T.U, v.c.T.dt)
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
