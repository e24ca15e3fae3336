------------------------------- MODULE Dyadic -------------------------------
(* Expressions whose constants and arguments are of extreme or barely different magnitude: 2^-300, 1 + 2^-50, ...
   A number is an exact sum of odd multiples of powers of two, kept as a sequence of <<c, e>> (meaning c*2^e) with
   rising exponents; terms closer than 2^20 are merged, so the last term carries the sign and the order of magnitude.
   A program is  x ;  a constant ;  op1 over both ;  op2 of that and x or the constant,
   and every node carries its value and its exact derivative with respect to x (forward rule of calculus).
   This settles what the rational programs of Calc.tla cannot write down: nothing may be decided by "close to zero" or
   "close to one", and nothing may overflow or vanish in between. *)
EXTENDS Rand, TLC, Json, FiniteSets, Naturals
CONSTANTS LO, HI, PER
VARIABLE n

NoNum == [ok |-> FALSE, t |-> << >>]
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
RECURSIVE Odd(_)
Odd(p) == IF p[1] = 0 \/ p[1] % 2 = 1 THEN p ELSE Odd(<<p[1] \div 2, p[2] + 1>>)

(* insert one term into a number; fails when a coefficient grows out of bounds *)
RECURSIVE Ins(_, _)
Ins(s, p) ==
  IF p[1] = 0 THEN [ok |-> TRUE, t |-> s]
  ELSE LET near == {i \in DOMAIN s : Abs(s[i][2] - p[2]) <= 18} IN
    IF near = {} THEN
      LET lo == SelectSeq(s, LAMBDA q: q[2] < p[2])  hi == SelectSeq(s, LAMBDA q: q[2] > p[2]) IN
      [ok |-> TRUE, t |-> lo \o <<Odd(p)>> \o hi]
    ELSE LET i == CHOOSE i \in near : TRUE
             q == s[i]  e == IF q[2] < p[2] THEN q[2] ELSE p[2]
             c == q[1] * Pow2(q[2] - e) + p[1] * Pow2(p[2] - e)
             rest == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
         IN IF Abs(c) > 30000000 THEN NoNum ELSE Ins(rest, Odd(<<c, e>>))
RECURSIVE Sum(_, _)
Sum(a, s) == IF ~a.ok \/ s = << >> THEN a ELSE Sum(Ins(a.t, s[1]), Tail(s))
Num(s) == Sum([ok |-> TRUE, t |-> << >>], s)
Zero == Num(<< >>)
One == Num(<<<<1, 0>>>>)
IsZero(a) == a.ok /\ a.t = << >>
Mono(a) == a.ok /\ Len(a.t) = 1
Add(a, b) == IF ~a.ok \/ ~b.ok THEN NoNum ELSE Sum(a, b.t)
Neg(a) == IF ~a.ok THEN NoNum ELSE [ok |-> TRUE, t |-> [i \in DOMAIN a.t |-> <<-a.t[i][1], a.t[i][2]>>]]
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) ==
  IF ~a.ok \/ ~b.ok THEN NoNum
  ELSE IF a.t = << >> \/ b.t = << >> THEN Zero
  ELSE LET k == Len(a.t)  l == Len(b.t)
           prods == [z \in 1..(k * l) |-> <<a.t[((z - 1) \div l) + 1], b.t[((z - 1) % l) + 1]>>]
       IN IF \E z \in DOMAIN prods : Abs(prods[z][1][1]) > 4000 \/ Abs(prods[z][2][1]) > 4000 THEN NoNum
          ELSE Sum(Zero, [z \in DOMAIN prods |-> <<prods[z][1][1] * prods[z][2][1], prods[z][1][2] + prods[z][2][2]>>])
(* reciprocal: exact for a power of two; 1 -+ 2^-50 for +-(1 +- 2^-50), which is right to one part in 2^100 *)
Inv(a) ==
  IF ~a.ok \/ a.t = << >> THEN NoNum
  ELSE IF Len(a.t) = 1 THEN (IF Abs(a.t[1][1]) = 1 THEN Num(<<<<a.t[1][1], -a.t[1][2]>>>>) ELSE NoNum)
  ELSE IF Len(a.t) = 2 /\ Abs(a.t[1][1]) = 1 /\ Abs(a.t[2][1]) = 1 /\ a.t[1][2] = -50 /\ a.t[2][2] = 0
       THEN Num(<<a.t[2], <<-a.t[1][1], -50>>>>)
  ELSE NoNum
Sgn(a) == IF a.t = << >> THEN 0 ELSE IF a.t[Len(a.t)][1] > 0 THEN 1 ELSE -1
Top(a) == a.t[Len(a.t)][2]
(* b is negligible next to a *)
Dwarfs(a, b) == a.ok /\ b.ok /\ a.t # << >> /\ (b.t = << >> \/ Top(a) - Top(b) > 80)
RECURSIVE Bits(_)
Bits(c) == IF c = 0 THEN 0 ELSE 1 + Bits(c \div 2)
(* fits a double exactly, well inside the normal range *)
Exact(a) == /\ a.ok
            /\ a.t = << >> \/ (/\ Top(a) + Bits(Abs(a.t[Len(a.t)][1])) - a.t[1][2] <= 52
                               /\ a.t[1][2] > -960 /\ Top(a) < 960)
Small(a) == a.ok /\ (a.t = << >> \/ (a.t[1][2] > -960 /\ Top(a) < 960))

-----------------------------------------------------------------------------
(* a node: value v and derivative d, each a number (or unknown) *)
Node(v, d) == [v |-> v, d |-> d]
Bad == Node(NoNum, NoNum)
Ipow(a, k) == IF k = 2 THEN Mul(a, a) ELSE IF k = 3 THEN Mul(a, Mul(a, a)) ELSE IF k = -1 THEN Inv(a) ELSE NoNum
IntOf(a) == IF Mono(a) /\ a.t[1][2] \in 0..5 THEN a.t[1][1] * Pow2(a.t[1][2]) ELSE 0

(* a^p for a constant exponent: small integers exactly; any exponent at a = 1; a tiny exponent at a power of two near one *)
PowRule(a, p) ==
  LET k == IntOf(p.v) IN
  IF IsZero(p.v) THEN (IF IsZero(a.v) THEN Bad ELSE Node(One, Zero))   \* 0^0 is a convention
  ELSE IF k \in {2, 3, -1} THEN
    (IF k = 2 THEN Node(Ipow(a.v, 2), Mul(Mul(p.v, a.v), a.d))
     ELSE IF k = 3 THEN Node(Ipow(a.v, 3), Mul(Mul(p.v, Mul(a.v, a.v)), a.d))
     ELSE LET r == Inv(a.v) IN Node(r, Neg(Mul(Mul(r, r), a.d))))
  ELSE IF k = 1 THEN a
  ELSE IF a.v = One THEN Node(One, Mul(p.v, a.d))
  ELSE IF Mono(a.v) /\ Sgn(a.v) = 1 /\ Abs(a.v.t[1][2]) < 5 /\ Mono(p.v) /\ Top(p.v) < -55
       THEN Node(One, Mul(Mul(p.v, Inv(a.v)), a.d))
  ELSE Bad
Apply2(op, a, b) ==
  CASE op = "add" -> Node(Add(a.v, b.v), Add(a.d, b.d))
    [] op = "sub" -> Node(Sub(a.v, b.v), Sub(a.d, b.d))
    [] op = "mul" -> LET p == Mul(a.d, b.v)  q == Mul(a.v, b.d) IN      \* a sum of two inexact terms may cancel: not asked
                     Node(Mul(a.v, b.v), IF IsZero(p) \/ IsZero(q) \/ (Exact(p) /\ Exact(q)) THEN Add(p, q) ELSE NoNum)
    [] op = "div" -> LET r == Inv(b.v)  rr == Mul(r, r) IN
                     Node(Mul(a.v, r), IF IsZero(b.d) THEN Mul(a.d, r)
                                       ELSE IF IsZero(a.d) /\ Small(rr) THEN Neg(Mul(Mul(a.v, rr), b.d))
                                       ELSE NoNum)
    [] op \in {"max", "min"} ->
         LET s == Sub(a.v, b.v) IN
         IF ~s.ok \/ IsZero(s) THEN Bad
         ELSE (IF (Sgn(s) = 1) = (op = "max") THEN a ELSE b)
    [] op = "hypot" ->
         (IF IsZero(a.v) /\ ~IsZero(b.v) THEN Node(IF Sgn(b.v) = 1 THEN b.v ELSE Neg(b.v), IF Sgn(b.v) = 1 THEN b.d ELSE Neg(b.d))
          ELSE IF IsZero(b.v) /\ ~IsZero(a.v) THEN Node(IF Sgn(a.v) = 1 THEN a.v ELSE Neg(a.v), IF Sgn(a.v) = 1 THEN a.d ELSE Neg(a.d))
          ELSE IF Mono(a.v) /\ Mono(b.v) /\ a.v.t[1][2] = b.v.t[1][2] + 2 /\ Abs(a.v.t[1][1]) = 1 /\ Abs(b.v.t[1][1]) = 3
               THEN Node(Num(<<<<5, b.v.t[1][2]>>>>), NoNum)
          ELSE IF Mono(a.v) /\ Mono(b.v) /\ b.v.t[1][2] = a.v.t[1][2] + 2 /\ Abs(b.v.t[1][1]) = 1 /\ Abs(a.v.t[1][1]) = 3
               THEN Node(Num(<<<<5, a.v.t[1][2]>>>>), NoNum)
          ELSE IF Dwarfs(a.v, b.v) /\ IsZero(b.d) THEN Node(IF Sgn(a.v) = 1 THEN a.v ELSE Neg(a.v), IF Sgn(a.v) = 1 THEN a.d ELSE Neg(a.d))
          ELSE IF Dwarfs(b.v, a.v) /\ IsZero(a.d) THEN Node(IF Sgn(b.v) = 1 THEN b.v ELSE Neg(b.v), IF Sgn(b.v) = 1 THEN b.d ELSE Neg(b.d))
          ELSE IF Mono(a.v) /\ Mono(b.v) /\ Dwarfs(b.v, a.v) /\ IsZero(b.d) /\ Abs(b.v.t[1][1]) = 1
               THEN Node(IF Sgn(b.v) = 1 THEN b.v ELSE Neg(b.v), Mul(Mul(a.v, a.d), Num(<<<<1, -b.v.t[1][2]>>>>)))
          ELSE Bad)
    [] op = "atan2" ->      \* atan2(y, x) = y / x when y is tiny next to a positive x
         (IF Dwarfs(b.v, a.v) /\ Sgn(b.v) = 1 /\ Mono(b.v) /\ Abs(Top(b.v)) < 400 /\ Abs(b.v.t[1][1]) = 1
          THEN Node(Mul(a.v, Inv(b.v)), IF IsZero(b.d) THEN Mul(a.d, Inv(b.v))
                                        ELSE IF IsZero(a.d) THEN Neg(Mul(Mul(a.v, Mul(Inv(b.v), Inv(b.v))), b.d)) ELSE NoNum)
          ELSE Bad)
    [] op = "pow" -> (IF IsZero(b.d) THEN PowRule(a, b) ELSE Bad)

(* functions of a tiny argument, right to one part in 2^80 *)
Tiny(a) == Mono(a) /\ Top(a) < -45
Apply1(op, a) ==
  CASE op = "neg" -> Node(Neg(a.v), Neg(a.d))
    [] op = "abs" -> (IF IsZero(a.v) THEN Bad ELSE IF Sgn(a.v) = 1 THEN a ELSE Node(Neg(a.v), Neg(a.d)))
    [] op = "sign" -> (IF IsZero(a.v) THEN Bad ELSE Node(IF Sgn(a.v) = 1 THEN One ELSE Neg(One), Zero))
    [] op \in {"sin", "asin", "tan", "atan", "sinh", "tanh"} -> (IF Tiny(a.v) \/ IsZero(a.v) THEN Node(a.v, a.d) ELSE Bad)
    [] op \in {"exp", "cos", "cosh"} -> (IF Tiny(a.v) /\ Top(a.v) < -55 THEN
                         Node(One, IF op = "exp" THEN a.d ELSE IF op = "cos" THEN Neg(Mul(a.v, a.d)) ELSE Mul(a.v, a.d)) ELSE Bad)
    [] op = "log" -> (IF a.v.ok /\ Len(a.v.t) = 2 /\ a.v.t[2] = <<1, 0>> /\ a.v.t[1][2] = -50
                      THEN Node(Num(<<a.v.t[1], <<-1, -101>>>>), Mul(Inv(a.v), a.d)) ELSE Bad)
    [] op = "sqrt" -> (IF Mono(a.v) /\ a.v.t[1][1] = 1 /\ a.v.t[1][2] % 2 = 0
                       THEN LET h == a.v.t[1][2] \div 2 IN Node(Num(<<<<1, h>>>>), Mul(Num(<<<<1, -1 - h>>>>), a.d)) ELSE Bad)
    [] op = "cbrt" -> (IF Mono(a.v) /\ Abs(a.v.t[1][1]) = 1 /\ a.v.t[1][2] % 3 = 0
                       THEN Node(Num(<<<<a.v.t[1][1], a.v.t[1][2] \div 3>>>>), IF IsZero(a.d) THEN Zero ELSE NoNum) ELSE Bad)

-----------------------------------------------------------------------------

Points == <<<<1, 0, 0>>, <<0, 0, 0>>, <<-1, 0, 0>>, <<1, -60, 0>>, <<-1, -300, 0>>, <<1, 90, 0>>, <<1, 0, 1>>, <<1, 0, -1>>, <<3, -100, 0>>,
            <<1, -2, 0>>, <<-1, 150, 0>>, <<2, 0, 0>>>>
Cons == <<<<1, -300, 0>>, <<-1, -60, 0>>, <<1, -54, 0>>, <<1, -20, 0>>, <<-1, -30, 0>>, <<1, 0, 1>>, <<1, 0, -1>>, <<-1, 0, 1>>, <<-1, 0, -1>>,
          <<1, 1, 1>>, <<1, -1, 0>>, <<1, 0, 0>>, <<3, 0, 0>>, <<1, -98, 0>>, <<1, 120, 0>>, <<-1, 0, 0>>, <<1, -70, 0>>, <<2, 0, 0>>, <<0, 0, 0>>,
          <<0, 0, 1>>, <<0, 0, -1>>, <<2, 0, -1>>>>
Kinds == <<"cp", "kp">>
Bins == <<"add", "sub", "mul", "div", "max", "min", "hypot", "atan2", "pow">>
Uns == <<"neg", "abs", "sign", "sin", "asin", "tan", "atan", "sinh", "tanh", "exp", "cos", "cosh", "log", "sqrt", "cbrt">>
Val(q) == Num(<<<<q[1], q[2]>>, <<q[3], -50>>>>)
X(q) == Node(Val(q), One)
C(q) == Node(Val(q), Zero)

(* op1 first all binaries (both operand orders), then all unaries of x and of the constant *)
NF == 2 * Len(Bins) + 2 * Len(Uns)
First(f) == IF f <= 2 * Len(Bins)
            THEN [op |-> Bins[((f - 1) \div 2) + 1], a |-> IF f % 2 = 1 THEN 1 ELSE 2, b |-> IF f % 2 = 1 THEN 2 ELSE 1]
            ELSE LET g == f - 2 * Len(Bins) IN [op |-> Uns[((g - 1) \div 2) + 1], a |-> IF g % 2 = 1 THEN 1 ELSE 2, b |-> 0]
Seconds == <<"add", "sub", "mul", "div", "neg", "abs", "max", "add", "mul", "pow", "sub">>
Second(m, k) == LET op == Pick(m, 10 + 4 * k, Seconds) IN
  IF op \in {"neg", "abs"} THEN [op |-> op, a |-> 3, b |-> 0]
  ELSE IF op = "pow" THEN [op |-> op, a |-> 3, b |-> 2]
  ELSE LET o == Draw(m, 11 + 4 * k, 2) + 1 IN
       IF Draw(m, 12 + 4 * k, 2) = 0 THEN [op |-> op, a |-> 3, b |-> o] ELSE [op |-> op, a |-> o, b |-> 3]
Do(i, N) == IF i.b = 0 THEN Apply1(i.op, N[i.a]) ELSE Apply2(i.op, N[i.a], N[i.b])

(* how far the reported type must reach for op1 over {x, c} *)
Least(i, c) ==
  LET q == <<c[1], c[2], c[3]>>
      zero == c[1] = 0 /\ c[3] = 0
      cx == i.a = 2   \* constant on the left
  IN CASE i.op \in {"add", "sub"} -> 2
       [] i.op = "mul" -> IF zero THEN 1 ELSE 2
       [] i.op = "div" -> IF zero THEN 1 ELSE IF cx THEN 4 ELSE 2
       [] i.op \in {"max", "min"} -> 4
       [] i.op \in {"hypot", "atan2"} -> IF zero THEN 1 ELSE 4
       [] i.op = "pow" -> IF zero \/ cx THEN 1 ELSE IF q = <<1, 0, 0>> THEN 2 ELSE IF q = <<2, 0, 0>> \/ q = <<1, 1, 0>> THEN 3 ELSE 4
       [] i.op \in {"neg"} -> IF cx THEN 1 ELSE 2
       [] i.op \in {"abs", "sign", "sin", "asin", "tan", "atan", "sinh", "tanh", "exp", "cos", "cosh", "log", "sqrt", "cbrt"} -> IF cx THEN 1 ELSE 4

(* a comparison is asked for op1 whenever it is known, for op2 only when everything before it is exact in floating point *)
Out(a) == IF a.ok /\ Small(a) THEN <<1, a.t>> ELSE <<0, << >>>>
Clean(N, i) == \A j \in {i.a, i.b} \ {0} : Exact(N[j].v) /\ Exact(N[j].d)
Row(m) ==
  LET ci == ((m - 1) % Len(Cons)) + 1
      f == (((m - 1) \div Len(Cons)) % NF) + 1
      kind == Pick(m, 3, Kinds)
      i3 == First(f)
      pts == [p \in 1..Len(Points) |->
               LET B == TLCEval(<<X(Points[p]), C(Cons[ci])>>)
                   n3 == TLCEval(Do(i3, B))
                   N == Append(B, n3)
                   four == [k \in 1..PER |->
                     LET i4 == Second(m, k) IN
                     IF n3.v.ok /\ n3.d.ok /\ Clean(N, i4) THEN LET r == TLCEval(Do(i4, N)) IN <<Out(r.v), Out(r.d)>>
                     ELSE <<Out(NoNum), Out(NoNum)>>]
               IN [v |-> Out(n3.v), d |-> Out(n3.d), q |-> four]]
  IN [m |-> m, c |-> Cons[ci], kind |-> kind, i3 |-> i3, i4 |-> [k \in 1..PER |-> Second(m, k)], least |-> Least(i3, Cons[ci]), pts |-> pts]
(* far out, where a function has reached its limit to every digit: value, first and second derivative *)
Limits == [op: {"tanh", "erf", "expneg", "atan"}, e: {6, 8, 9, 10, 20, 100}, s: {1, -1}]
Limit(r) ==
  LET x == Num(<<<<r.s, r.e>>>>) IN
  CASE r.op \in {"tanh", "erf"} -> [x |-> Out(x), v |-> Out(Num(<<<<r.s, 0>>>>)), d |-> Out(Zero), h |-> Out(Zero)]
    [] r.op = "expneg" -> [x |-> Out(Num(<<<<-1, r.e>>>>)), v |-> Out(Zero), d |-> Out(Zero), h |-> Out(Zero)]
    [] r.op = "atan" -> [x |-> Out(x), v |-> Out(NoNum),     \* 1/x^2 and -2/x^3 up to one part in x^2
                         d |-> IF r.e < 26 THEN Out(NoNum) ELSE Out(Num(<<<<1, -2 * r.e>>>>)),
                         h |-> IF r.e < 26 THEN Out(NoNum) ELSE Out(Num(<<<<-2 * r.s, -3 * r.e>>>>))]
EmitLimits == n = 1 => \A r \in Limits : PrintT("@H" \o ToJson([op |-> IF r.op = "expneg" THEN "exp" ELSE r.op, e |-> r.e] @@ Limit(r)))
Total == Len(Cons) * NF
Init == n = LO
Next == /\ n < HI
        /\ n' = n + 1
Emit == n <= Total => PrintT("@D" \o ToJson(Row(n)))
=============================================================================
