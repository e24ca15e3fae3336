---------------------------------- MODULE Nlp ----------------------------------
(* Problems whose solutions are known by construction.

   "cvx": strictly convex. The minimiser xs, multipliers y, z > 0 of the active inequalities, and constraints are drawn;
   the cost is  1/2 d'Hd + c'd + f0 + sum q d^4  with d = x - xs, H = L'L + I and c = Ae'y + Ai'z, so that xs satisfies
   the optimality conditions and, the problem being convex, is its only global minimiser with cost f0. Inequalities
   are  b - a'x - x'diag(k)x >= 0  with k >= 0. Gradients of equalities and active inequalities are independent (each
   has a pivot column of its own), hence there is a strictly feasible point.
   "well": f = sum w_k (t_k^2 - a_k^2)^2 over t = V x, V unimodular; bounds and equalities on t_k. Nonconvex, but the
   first-order points are a product of small sets.

   A problem is also posed rescaled by powers of two, in another order, maximised, and from several initial guesses: the
   answer must not change. *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANTS LO, HI
VARIABLE v
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Dot(a, b) == Sum([k \in 1..Len(a) |-> a[k] * b[k]], Len(a))
Rot(s, r) == [k \in 1..Len(s) |-> s[((k - 1 + r) % Len(s)) + 1]]
Small == <<0, 0, 1, -1, 2>>
Scale(i, o) == Pick(i, o, <<0, 0, 0, 1, -1, 3, -3, 6, -4>>)
Tiny == <<0, 0, 0, 0, 0, 0, 0, 0, 1, -1>>
(* big: more variables, and mostly zero coefficients every other time *)
Cvx(i, big) ==
  LET n == IF big THEN Draw(i, 1, 14) + 8 ELSE Draw(i, 1, 5) + 1
      few == big /\ Draw(i, 31, 3) # 0
      me == IF Draw(i, 2, 2) = 0 THEN 0 ELSE Draw(i, 3, n)           \* < n
      ma == Draw(i, 4, n - me + 1)                                   \* active inequalities
      mi == IF Draw(i, 5, 3) = 0 /\ ma = 0 THEN 0 ELSE Draw(i, 6, 3) \* inactive ones
      xs == PickSeq(i, 7, n, <<0, 1, -1, 2, -3, 3>>)
      L == [r \in 1..n |-> [c \in 1..n |-> IF c > r THEN 0 ELSE Pick(i, 7000 + 25 * r + c, IF few THEN Tiny ELSE Small)]]
      H == [r \in 1..n |-> [c \in 1..n |-> Sum([k \in 1..n |-> L[k][r] * L[k][c]], n) + (IF r = c THEN 1 ELSE 0)]]
      row(r, o) == [c \in 1..n |-> IF c = r THEN (IF Draw(i, o + r, 2) = 0 THEN 1 ELSE -1) ELSE IF c <= me + ma THEN 0 ELSE Pick(i, o + 30 * r + c, IF few THEN Tiny ELSE Small)]
      Ae == [r \in 1..me |-> row(r, 10000)]
      \* gradient of an active inequality at xs is g; the function is s - g... written b - a'x - x'Kx with a = -g - 2 K xs
      G == [r \in 1..ma |-> row(me + r, 20000)]
      K(r) == [c \in 1..n |-> IF Draw(i, 3000 + r, 3) = 0 THEN Draw(i, 31000 + 25 * r + c, 2) ELSE 0]
      ga(r) == [c \in 1..n |-> -(G[r][c]) - 2 * K(r)[c] * xs[c]]
      val(a, k) == Dot(a, xs) + Sum([c \in 1..n |-> k[c] * xs[c] * xs[c]], n)
      y == PickSeq(i, 8, me, <<0, 1, -1, 2, -3>>)
      z == PickSeq(i, 9, ma, <<1, 2, 3>>)
      act == [r \in 1..ma |-> [a |-> ga(r), k |-> K(r), b |-> val(ga(r), K(r)), sc |-> Scale(i, 4000 + r)]]
      ina == [r \in 1..mi |-> LET a == PickSeq(i, 4100 + r, n, IF few THEN Tiny ELSE <<0, 1, -1, 2, -2>>) k == K(ma + r)
                              IN  [a |-> a, k |-> k, b |-> val(a, k) + Pick(i, 4200 + r, <<1, 2, 7>>), sc |-> Scale(i, 4300 + r)]]
      ineqs == Rot(act \o ina, Draw(i, 10, 7))
      eqs == Rot([r \in 1..me |-> [a |-> Ae[r], b |-> Dot(Ae[r], xs), sc |-> Scale(i, 4400 + r)]], Draw(i, 11, 5))
      c == [q \in 1..n |-> Sum([r \in 1..me |-> Ae[r][q] * y[r]], me) + Sum([r \in 1..ma |-> G[r][q] * z[r]], ma)]
  IN  [k |-> "cvx", n |-> n, xs |-> xs, H |-> H, c |-> c, f0 |-> Draw(i, 12, 9) - 4, q |-> [r \in 1..n |-> IF Draw(i, 13, 3) = 0 THEN Draw(i, 14 + r, 2) ELSE 0],
       eqs |-> eqs, ins |-> IF Len(act \o ina) = 0 THEN <<>> ELSE ineqs, act |-> ma, fs |-> Scale(i, 30), y |-> y, z |-> z, Ae |-> Ae, G |-> G]
(* unimodular V: unit lower times unit upper, small entries *)
Well(i) ==
  LET n == Draw(i, 1, 3) + 1
      Lo == [r \in 1..n |-> [c \in 1..n |-> IF c = r THEN 1 ELSE IF c < r THEN Draw(i, 700 + 7 * r + c, 3) - 1 ELSE 0]]
      Up == [r \in 1..n |-> [c \in 1..n |-> IF c = r THEN 1 ELSE IF c > r THEN Draw(i, 800 + 7 * r + c, 3) - 1 ELSE 0]]
      V == [r \in 1..n |-> [c \in 1..n |-> Sum([k \in 1..n |-> Lo[r][k] * Up[k][c]], n)]]
      w == PickSeq(i, 2, n, <<1, 1, 2>>)
      a == PickSeq(i, 3, n, <<1, 2, 3>>)
      kind(k) == Pick(i, 40 + k, <<"free", "eq", "lo", "hi", "both", "free", "lo">>)
      lo(k) == IF kind(k) \in {"lo", "both"} THEN Draw(i, 50 + k, 7) - 4 ELSE -1000
      hi(k) == IF kind(k) = "both" THEN lo(k) + 1 + Draw(i, 60 + k, 4) ELSE IF kind(k) = "hi" THEN Draw(i, 60 + k, 7) - 3 ELSE 1000
      e(k) == Draw(i, 70 + k, 7) - 3
      df(k, t) == t * (t * t - a[k] * a[k])
      pts(k) == IF kind(k) = "eq" THEN {e(k)}
                ELSE {t \in {0, a[k], -(a[k])} : lo(k) <= t /\ t <= hi(k)} \cup (IF lo(k) > -1000 /\ df(k, lo(k)) >= 0 THEN {lo(k)} ELSE {})
                     \cup (IF hi(k) < 1000 /\ df(k, hi(k)) <= 0 THEN {hi(k)} ELSE {})
  IN  [k |-> "well", n |-> n, V |-> V, w |-> w, a |-> a, kind |-> [k \in 1..n |-> kind(k)], lo |-> [k \in 1..n |-> lo(k)], hi |-> [k \in 1..n |-> hi(k)],
       e |-> [k \in 1..n |-> e(k)], pts |-> [k \in 1..n |-> pts(k)], fs |-> Scale(i, 30), sc |-> [k \in 1..n |-> Scale(i, 80 + k)]]
Case(i) == LET p == IF i % 4 = 3 THEN Well(i) ELSE Cvx(i, i % 16 = 0)
           IN  [i |-> i, p |-> p, start |-> [s \in 1..2 |-> PickSeq(i, 90 + s, p.n, IF s = 1 THEN <<0, 1, -2, 5>> ELSE <<0, 3, -7, 40>>)],
                perm |-> Draw(i, 95, p.n), max |-> Draw(i, 96, 2) = 0, style |-> Draw(i, 97, 3), feas |-> Draw(i, 98, 4) = 0]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
(* the optimality conditions hold at xs: feasibility, stationarity (by definition of c), complementarity *)
Grad(c, x) == [q \in 1..Len(x) |-> -(c.a[q]) - 2 * c.k[q] * x[q]]
At(c, x) == c.b - Dot(c.a, x) - Sum([q \in 1..Len(x) |-> c.k[q] * x[q] * x[q]], Len(x))
KKT == v.p.k = "cvx" => LET p == v.p IN
   /\ \A q \in DOMAIN p.eqs : Dot(p.eqs[q].a, p.xs) = p.eqs[q].b
   /\ Cardinality({q \in DOMAIN p.ins : At(p.ins[q], p.xs) = 0}) = p.act
   /\ \A q \in DOMAIN p.ins : At(p.ins[q], p.xs) >= 0 /\ (At(p.ins[q], p.xs) = 0 => \E r \in 1..p.act : Grad(p.ins[q], p.xs) = p.G[r])
   /\ \A r \in 1..p.act : \E q \in DOMAIN p.ins : At(p.ins[q], p.xs) = 0 /\ Grad(p.ins[q], p.xs) = p.G[r]
   /\ \A r, q \in 1..p.n : p.H[r][q] = p.H[q][r]
Points == v.p.k = "well" => \A q \in 1..v.p.n : (v.p.kind[q] # "eq" /\ v.p.lo[q] < v.p.hi[q]) => v.p.pts[q] # {}
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
