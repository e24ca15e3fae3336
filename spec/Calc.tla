-------------------------------- MODULE Calc --------------------------------
(* Expression programs over decision variables and constants, with the meaning the user gave them:
   the value of every node, its first and second partial derivatives by the rules of calculus
   (chain rule over each operator's local derivatives), and its polynomial degree class.
   A program is a sequence of instructions; instruction i is <<op, a, b, c>>:
     <<"x", k, 0, 0>>      the k-th decision variable
     <<"c", n, d, 0>>      the constant n/d as a Variable,   "k": as a raw floating scalar,  "i": raw integer
     <<op, a, b, c>>       an operator applied to instructions a, b, c  (0 = unused)
   Formulas are emitted as text over  v<i> (value of i), d<i>_<k> and h<i>_<k>_<l>  (derivatives of i);
   evaluating the primitive functions in floating point is left to the replayer. *)
EXTENDS Rand, TLC, Json, FiniteSets, Naturals
CONSTANTS LO, HI, MODE, NV
VARIABLE n

Unary == <<"neg", "pos", "abs", "acos", "asin", "atan", "cbrt", "cos", "cosh", "erf", "exp", "log", "log10",
           "sign", "sin", "sinh", "sqrt", "tan", "tanh">>
Binary == <<"add", "sub", "mul", "div", "atan2", "hypot", "max", "min", "pow">>
Ternary == <<"hypot3">>
Leaf(op) == op \in {"x", "c", "k", "i"}
Const(op) == op \in {"c", "k", "i"}
IsUnary(op) == \E j \in DOMAIN Unary: Unary[j] = op
Arity(op) == IF Leaf(op) THEN 0 ELSE IF IsUnary(op) THEN 1 ELSE IF op = "hypot3" THEN 3 ELSE 2
S(i) == ToString(i)
V(i) == "v" \o S(i)

-----------------------------------------------------------------------------
(* local derivatives of each operator with respect to argument p (text over the argument values) *)
A(ins, p) == V(ins[p + 1])
G(i, ins, p) ==
  LET a == A(ins, 1)  b == A(ins, 2)  v == V(i) IN
  CASE ins[1] = "neg" -> "(-1.0)"
    [] ins[1] = "pos" -> "1.0"
    [] ins[1] = "abs" -> "sgn(" \o a \o ")"
    [] ins[1] = "acos" -> "(-1.0/sqrt(1.0-" \o a \o "*" \o a \o "))"
    [] ins[1] = "asin" -> "(1.0/sqrt(1.0-" \o a \o "*" \o a \o "))"
    [] ins[1] = "atan" -> "(1.0/(1.0+" \o a \o "*" \o a \o "))"
    [] ins[1] = "cbrt" -> "(1.0/(3.0*" \o v \o "*" \o v \o "))"
    [] ins[1] = "cos" -> "(-sin(" \o a \o "))"
    [] ins[1] = "cosh" -> "sinh(" \o a \o ")"
    [] ins[1] = "erf" -> "(TWO_OVER_SQRT_PI*exp(-" \o a \o "*" \o a \o "))"
    [] ins[1] = "exp" -> v
    [] ins[1] = "log" -> "(1.0/" \o a \o ")"
    [] ins[1] = "log10" -> "(1.0/(LN10*" \o a \o "))"
    [] ins[1] = "sign" -> "0.0"
    [] ins[1] = "sin" -> "cos(" \o a \o ")"
    [] ins[1] = "sinh" -> "cosh(" \o a \o ")"
    [] ins[1] = "sqrt" -> "(0.5/" \o v \o ")"
    [] ins[1] = "tan" -> "(1.0+" \o v \o "*" \o v \o ")"
    [] ins[1] = "tanh" -> "(1.0-" \o v \o "*" \o v \o ")"
    [] ins[1] = "add" -> "1.0"
    [] ins[1] = "sub" -> (IF p = 1 THEN "1.0" ELSE "(-1.0)")
    [] ins[1] = "mul" -> (IF p = 1 THEN b ELSE a)
    [] ins[1] = "div" -> (IF p = 1 THEN "(1.0/" \o b \o ")" ELSE "(-" \o a \o "/(" \o b \o "*" \o b \o "))")
    [] ins[1] = "atan2" -> (IF p = 1 THEN "(" \o b \o "/sq2(" \o a \o "," \o b \o "))"
                                     ELSE "(-" \o a \o "/sq2(" \o a \o "," \o b \o "))")
    [] ins[1] \in {"hypot", "hypot3"} -> "(" \o A(ins, p) \o "/" \o v \o ")"
    [] ins[1] = "max" -> (IF p = 1 THEN "first(" \o a \o "," \o b \o ")" ELSE "(1.0-first(" \o a \o "," \o b \o "))")
    [] ins[1] = "min" -> (IF p = 1 THEN "first(" \o b \o "," \o a \o ")" ELSE "(1.0-first(" \o b \o "," \o a \o "))")
    [] ins[1] = "pow" -> (IF p = 1 THEN "pw(" \o b \o "," \o a \o "," \o b \o "-1.0)"
                                   ELSE "(" \o v \o "*log(" \o a \o "))")

(* second local derivatives; "" means identically zero *)
GG(i, ins, p, q) ==
  LET a == A(ins, 1)  b == A(ins, 2)  v == V(i)  s2 == "sq2(" \o a \o "," \o b \o ")"  IN
  CASE ins[1] \in {"neg", "pos", "abs", "sign", "add", "sub", "max", "min"} -> ""
    [] ins[1] = "acos" -> "(-" \o a \o "/(1.0-" \o a \o "*" \o a \o ")**1.5)"
    [] ins[1] = "asin" -> "(" \o a \o "/(1.0-" \o a \o "*" \o a \o ")**1.5)"
    [] ins[1] = "atan" -> "(-2.0*" \o a \o "/(1.0+" \o a \o "*" \o a \o ")**2)"
    [] ins[1] = "cbrt" -> "(-2.0/(9.0*" \o v \o "**5))"
    [] ins[1] = "cos" -> "(-" \o v \o ")"
    [] ins[1] = "cosh" -> v
    [] ins[1] = "erf" -> "(-2.0*" \o a \o "*TWO_OVER_SQRT_PI*exp(-" \o a \o "*" \o a \o "))"
    [] ins[1] = "exp" -> v
    [] ins[1] = "log" -> "(-1.0/(" \o a \o "*" \o a \o "))"
    [] ins[1] = "log10" -> "(-1.0/(LN10*" \o a \o "*" \o a \o "))"
    [] ins[1] = "sin" -> "(-" \o v \o ")"
    [] ins[1] = "sinh" -> v
    [] ins[1] = "sqrt" -> "(-0.25/" \o v \o "**3)"
    [] ins[1] = "tan" -> "(2.0*" \o v \o "*(1.0+" \o v \o "*" \o v \o "))"
    [] ins[1] = "tanh" -> "(-2.0*" \o v \o "*(1.0-" \o v \o "*" \o v \o ")*calm(" \o a \o "))"
    [] ins[1] = "mul" -> (IF p = q THEN "" ELSE "1.0")
    [] ins[1] = "div" -> (IF p = 1 /\ q = 1 THEN "" ELSE IF p = 2 /\ q = 2 THEN "(2.0*" \o a \o "/" \o b \o "**3)"
                          ELSE "(-1.0/(" \o b \o "*" \o b \o "))")
    [] ins[1] = "atan2" -> (IF p # q THEN "((" \o a \o "*" \o a \o "-" \o b \o "*" \o b \o ")/" \o s2 \o "**2)"
                            ELSE IF p = 1 THEN "(-2.0*" \o a \o "*" \o b \o "/" \o s2 \o "**2)"
                            ELSE "(2.0*" \o a \o "*" \o b \o "/" \o s2 \o "**2)")
    [] ins[1] \in {"hypot", "hypot3"} ->
         (IF p = q THEN "((" \o v \o "*" \o v \o "-" \o A(ins, p) \o "*" \o A(ins, p) \o ")/" \o v \o "**3)"
          ELSE "(-" \o A(ins, p) \o "*" \o A(ins, q) \o "/" \o v \o "**3)")
    [] ins[1] = "pow" -> (IF p = 1 /\ q = 1 THEN "pw(" \o b \o "*(" \o b \o "-1.0)," \o a \o "," \o b \o "-2.0)"
                          ELSE IF p = 2 /\ q = 2 THEN "(" \o v \o "*log(" \o a \o ")**2)"
                          ELSE "(" \o a \o "**(" \o b \o "-1.0)*(1.0+" \o b \o "*log(" \o a \o ")))")

-----------------------------------------------------------------------------
(* which variables a node's formula mentions *)
RECURSIVE DepUpTo(_, _)
DepUpTo(P, m) == IF m = 0 THEN << >> ELSE
  LET prev == DepUpTo(P, m - 1)  ins == P[m] IN
  Append(prev, IF ins[1] = "x" THEN {ins[2]} ELSE IF Leaf(ins[1]) THEN {}
               ELSE UNION {prev[ins[p + 1]] : p \in 1..Arity(ins[1])})

RECURSIVE Join(_, _)
Join(s, m) == IF m > Len(s) THEN "" ELSE (IF s[m] = "" THEN "" ELSE "+" \o s[m]) \o Join(s, m + 1)
SumText(s) == LET t == Join(s, 1) IN IF t = "" THEN "0.0" ELSE t

Dk(P, dep, i, k) ==    \* first derivative text of node i wrt variable k
  LET ins == P[i] IN
  IF ins[1] = "x" THEN (IF ins[2] = k THEN "1.0" ELSE "0.0")
  ELSE SumText([p \in 1..Arity(ins[1]) |-> IF k \in dep[ins[p + 1]] THEN G(i, ins, p) \o "*d" \o S(ins[p + 1]) \o "_" \o S(k) ELSE ""])
Ref(pre, i, k, l) == pre \o S(i) \o "_" \o (IF k >= l THEN S(k) \o "_" \o S(l) ELSE S(l) \o "_" \o S(k))
Hkl(P, dep, i, k, l) ==
  LET ins == P[i]  m == Arity(ins[1]) IN
  IF ins[1] = "x" THEN "0.0"
  ELSE SumText([p \in 1..m |-> IF {k, l} \subseteq dep[ins[p + 1]] THEN G(i, ins, p) \o "*" \o Ref("h", ins[p + 1], k, l) ELSE ""]
               \o [e \in 1..(m * m) |->
                     LET p == ((e - 1) \div m) + 1  q == ((e - 1) % m) + 1  gg == GG(i, ins, p, q) IN
                     IF gg # "" /\ k \in dep[ins[p + 1]] /\ l \in dep[ins[q + 1]]
                     THEN gg \o "*d" \o S(ins[p + 1]) \o "_" \o S(k) \o "*d" \o S(ins[q + 1]) \o "_" \o S(l) ELSE ""])

-----------------------------------------------------------------------------
(* degree class: 1 constant, 2 linear, 3 quadratic, 4 nonlinear, 0 = outside the fragment with a fixed answer.
   A constant's exact rational value is tracked because 0 and 1 are neutral or absorbing. *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(a, b) == LET s == IF b < 0 THEN -1 ELSE 1  g == Gcd(Abs(a), Abs(b)) IN <<(s * a) \div g, (s * b) \div g>>
Big(q) == Abs(q[1]) > 2000 \/ q[2] > 2000
Unknown == [t |-> 0, q |-> <<0, 0>>]
K(q) == IF Big(q) THEN Unknown ELSE [t |-> 1, q |-> q]
NC(t) == [t |-> t, q |-> <<0, 0>>]
IsK(c) == c.t = 1
IsZ(c) == IsK(c) /\ c.q = <<0, 1>>
Is1(c) == IsK(c) /\ c.q = <<1, 1>>
MaxT(a, b) == IF a > b THEN a ELSE b
TypeRule(ins, T) ==
  LET op == ins[1]  a == T[ins[2]]  b == T[ins[3]] IN
  CASE op = "x" -> NC(2)
    [] Const(op) -> K(Norm(ins[2], ins[3]))
    [] op \in {"neg", "pos"} -> (IF a.t = 0 THEN Unknown ELSE IF IsK(a) THEN K(<<IF op = "neg" THEN -a.q[1] ELSE a.q[1], a.q[2]>>) ELSE a)
    [] op \in {"add", "sub"} ->
         (IF a.t = 0 \/ b.t = 0 THEN Unknown
          ELSE IF IsK(a) /\ IsK(b) THEN K(Norm(a.q[1] * b.q[2] + (IF op = "add" THEN 1 ELSE -1) * b.q[1] * a.q[2], a.q[2] * b.q[2]))
          ELSE NC(MaxT(a.t, b.t)))
    [] op = "mul" ->
         (IF IsZ(a) \/ IsZ(b) THEN K(<<0, 1>>)
          ELSE IF a.t = 0 \/ b.t = 0 THEN Unknown
          ELSE IF IsK(a) /\ IsK(b) THEN K(Norm(a.q[1] * b.q[1], a.q[2] * b.q[2]))
          ELSE IF IsK(a) THEN b ELSE IF IsK(b) THEN a
          ELSE IF a.t = 2 /\ b.t = 2 THEN NC(3) ELSE NC(4))
    [] op = "div" ->
         (IF a.t = 0 \/ b.t = 0 \/ IsZ(b) \/ ~IsK(b) THEN Unknown
          ELSE IF IsK(a) THEN K(Norm(a.q[1] * b.q[2], a.q[2] * b.q[1])) ELSE a)
    [] op = "pow" ->
         (IF a.t = 0 \/ b.t = 0 \/ ~IsK(b) THEN Unknown
          ELSE IF b.q = <<1, 1>> THEN a
          ELSE IF b.q = <<2, 1>> THEN (IF IsK(a) THEN K(Norm(a.q[1] * a.q[1], a.q[2] * a.q[2])) ELSE IF a.t = 2 THEN NC(3) ELSE NC(4))
          ELSE Unknown)
    [] OTHER -> Unknown
RECURSIVE Types(_, _)
Types(P, m) == IF m = 0 THEN << >> ELSE
  LET T == Types(P, m - 1)  ins == P[m] IN
  Append(T, TypeRule(<<ins[1], IF ins[1] # "x" /\ ~Const(ins[1]) /\ ins[2] = 0 THEN 1 ELSE ins[2],
                       IF ~Const(ins[1]) /\ ins[3] = 0 THEN 1 ELSE ins[3]>>, T \o <<Unknown>>))

-----------------------------------------------------------------------------
(* programs *)
Consts == <<<<"c", 0, 1, 0>>, <<"c", 1, 1, 0>>, <<"c", -1, 1, 0>>, <<"k", 2, 1, 0>>, <<"i", 2, 1, 0>>, <<"k", 1, 2, 0>>,
            <<"i", 3, 1, 0>>, <<"k", 0, 1, 0>>, <<"i", 1, 1, 0>>, <<"k", -3, 2, 0>>, <<"c", 2, 1, 0>>, <<"k", -1, 1, 0>>>>
(* level 1: leaves then one operator on leaves, exhaustively *)
Palette == <<<<"x", 1, 0, 0>>, <<"x", 2, 0, 0>>>> \o Consts \o
           <<<<"mul", 1, 1, 0>>, <<"mul", 1, 2, 0>>, <<"add", 1, 2, 0>>, <<"sin", 1, 0, 0>>, <<"sub", 1, 10, 0>>, <<"div", 2, 9, 0>>>>
NP == Len(Palette)
NU == Len(Unary)
NB == Len(Binary)
NL1 == NU * NP + NB * NP * NP + 30
Level1(m) ==
  IF m <= NU * NP THEN Append(Palette, <<Unary[((m - 1) \div NP) + 1], ((m - 1) % NP) + 1, 0, 0>>)
  ELSE LET r == m - NU * NP - 1 IN
    IF r < NB * NP * NP THEN Append(Palette, <<Binary[(r \div (NP * NP)) + 1], ((r \div NP) % NP) + 1, (r % NP) + 1, 0>>)
    ELSE LET t == r - NB * NP * NP IN
      Append(Palette, <<"hypot3", <<1, 2, 15, 16, 3>>[(t % 5) + 1], <<2, 1, 17, 4, 18>>[((t \div 5) % 5) + 1],
                        <<1, 18, 3>>[(t % 3) + 1]>>)

(* level 2: one operator on a palette entry and a level-1 node *)
Weighted == <<"add", "add", "sub", "sub", "mul", "mul", "mul", "div", "atan2", "hypot", "max", "min", "pow", "pow">> \o Unary
Tame(op, s, j, i, P) ==      \* extra instructions that move the argument into the operator's domain
  IF op \in {"log", "log10", "sqrt"} /\ Draw(s, j + 3, 4) # 0
    THEN <<<<"mul", i, i, 0>>, <<"k", 1, 2, 0>>, <<"add", Len(P) + 1, Len(P) + 2, 0>>>>
  ELSE IF op \in {"acos", "asin"} /\ Draw(s, j + 3, 6) # 0
    THEN <<<<"sin", i, 0, 0>>, <<"k", 3, 4, 0>>, <<"mul", Len(P) + 2, Len(P) + 1, 0>>>>
  ELSE IF op \in {"exp", "sinh", "cosh", "tan"} /\ Draw(s, j + 3, 5) # 0
    THEN <<<<"atan", i, 0, 0>>>>
  ELSE << >>
Near(s, j, P) ==      \* an operand: usually a recent node, sometimes any, sometimes a constant
  LET r == Draw(s, j, 10)  L == Len(P) IN
  IF r < 5 THEN L - Draw(s, j + 1, IF L < 4 THEN L ELSE 4) ELSE Draw(s, j + 1, L) + 1
RECURSIVE Grow(_, _, _)
Grow(s, m, P) ==
  IF m = 0 THEN P ELSE
  LET j == 20 * m
      op == Pick(s, j, IF Draw(s, j + 9, 30) = 0 THEN Ternary ELSE IF MODE = "poly"
              THEN <<"add", "sub", "mul", "mul", "neg", "div", "pow", "pos", "sub", "add">> ELSE Weighted)
      a == Near(s, j + 1, P)
  IN IF Arity(op) = 1 THEN
       LET t == Tame(op, s, j + 5, a, P) IN
       Grow(s, m - 1, P \o t \o <<<<op, IF t = << >> THEN a ELSE Len(P) + Len(t), 0, 0>>>>)
     ELSE IF op = "pow" /\ Draw(s, j + 2, 5) # 0 THEN
       LET e == Pick(s, j + 3, IF MODE = "poly" THEN <<<<"k", 2, 1, 0>>, <<"i", 2, 1, 0>>, <<"k", 1, 1, 0>>>>
                               ELSE <<<<"k", 2, 1, 0>>, <<"i", 3, 1, 0>>, <<"k", -1, 1, 0>>, <<"c", 1, 2, 0>>, <<"i", 2, 1, 0>>, <<"c", 2, 1, 0>>, <<"i", 4, 1, 0>>>>) IN
       Grow(s, m - 1, P \o <<e, <<"pow", a, Len(P) + 1, 0>>>>)
     ELSE IF op = "hypot3" THEN Grow(s, m - 1, Append(P, <<op, a, Near(s, j + 8, P), Near(s, j + 10, P)>>))
     ELSE IF Draw(s, j + 4, 4) = 0 \/ (MODE = "poly" /\ op = "div") THEN
       LET c == Pick(s, j + 6, Consts)  left == op # "div" /\ Draw(s, j + 7, 2) = 0 IN
       Grow(s, m - 1, P \o <<c, IF left THEN <<op, Len(P) + 1, a, 0>> ELSE <<op, a, Len(P) + 1, 0>>>>)
     ELSE Grow(s, m - 1, Append(P, <<op, a, Near(s, j + 8, P), 0>>))
Leaves == [k \in 1..NV |-> <<"x", k, 0, 0>>]
Prog(m) == IF MODE = "level1" THEN Level1(m)
           ELSE IF MODE = "level2" THEN
             LET P == Level1(Draw(m, 1, NL1) + 1) IN Grow(m, 2, P)
           ELSE Grow(m, 3 + Draw(m, 2, 9), Leaves \o <<Pick(m, 3, Consts)>>)

-----------------------------------------------------------------------------
(* what is asked: points, and the objects differentiated, in shuffled variable orders *)
Coord(m, p, k) == LET r == Draw(m, 500 + 40 * p + k, 20) IN
  IF r < 5 THEN <<<<0, 8, -8, 16, 4>>[r + 1], 8>>
  ELSE IF r = 5 THEN <<<<1, 4096>>, <<-1, 1024>>, <<1, 2048>>, <<-1, 4096>>, <<40, 1>>>>[Draw(m, 502 + 40 * p + k, 5) + 1] ELSE <<Draw(m, 501 + 40 * p + k + 7, 41) - 20, 8>>
Points(m) == [p \in 1..4 |-> [k \in 1..NV |-> Coord(m, p, k)]]
Perms == {f \in [1..NV -> 1..NV] : \A a, b \in 1..NV : a # b => f[a] # f[b]}
RECURSIVE Shuf(_, _, _)
Shuf(m, j, s) == IF s = << >> THEN << >> ELSE
  LET i == Draw(m, j, Len(s)) + 1 IN <<s[i]>> \o Shuf(m, j + 1, SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
Order(m, j) == LET s == Shuf(m, j, [k \in 1..NV |-> k])  l == IF Draw(m, j + 50, 2) = 0 THEN NV ELSE Draw(m, j + 51, NV) + 1
               IN SubSeq(s, 1, l)
Outs(m, L) == LET c == 2 + Draw(m, 800, 3) IN [e \in 1..c |-> IF e = 1 THEN L ELSE Draw(m, 800 + e, L) + 1]

Row(m) ==
  LET P == Prog(m)  L == Len(P)  dep == DepUpTo(P, L)  T == Types(P, L) IN
  [m |-> m, p |-> P,
   t |-> [i \in 1..L |-> T[i].t],
   dep |-> [i \in 1..L |-> [k \in 1..NV |-> IF k \in dep[i] THEN 1 ELSE 0]],
   d |-> [i \in 1..L |-> [k \in 1..NV |-> IF k \in dep[i] THEN Dk(P, dep, i, k) ELSE ""]],
   h |-> [i \in 1..L |-> [k \in 1..NV |-> [l \in 1..k |-> IF {k, l} \subseteq dep[i] THEN Hkl(P, dep, i, k, l) ELSE ""]]],
   x |-> Points(m), o1 |-> Order(m, 900), o2 |-> Order(m, 1000), o3 |-> Order(m, 1100), outs |-> Outs(m, L)]

Total == IF MODE = "level1" THEN NL1 ELSE HI
Init == n = LO
Next == /\ n < HI
        /\ n' = n + 1
Emit == (n >= 1 /\ n <= Total) => PrintT("@C" \o ToJson(Row(n)))
=============================================================================
