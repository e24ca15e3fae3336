-------------------------------- MODULE Rat --------------------------------
(* Rational numbers <<n, d>> with d > 0, kept small enough for TLC's 32-bit integers. *)
EXTENDS Integers, Sequences
AbsI(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
R(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
               g == Gcd(AbsI(n), AbsI(d))
           IN  IF n = 0 THEN <<0, 1>> ELSE <<(s * n) \div g, (s * d) \div g>>
RInt(n) == <<n, 1>>
(* floor division; the second operand is positive *)
RECURSIVE CmpPos(_, _, _, _)
(* compares a/b with c/d by continued fractions: never multiplies *)
CmpPos(a, b, c, d) ==
  LET qa == a \div b  qc == c \div d  ra == a % b  rc == c % d
  IN  IF qa # qc THEN (IF qa < qc THEN -1 ELSE 1)
      ELSE IF ra = 0 /\ rc = 0 THEN 0
      ELSE IF ra = 0 THEN -1
      ELSE IF rc = 0 THEN 1
      ELSE CmpPos(d, rc, b, ra)
RCmp(x, y) == CmpPos(x[1], x[2], y[1], y[2])
RLt(x, y) == RCmp(x, y) < 0
RLe(x, y) == RCmp(x, y) <= 0
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RMax(x, y) == IF RLe(x, y) THEN y ELSE x
RMul(x, y) == LET a == R(x[1], y[2])  b == R(y[1], x[2]) IN R(a[1] * b[1], a[2] * b[2])
RDiv(x, y) == RMul(x, IF y[1] < 0 THEN <<-y[2], -y[1]>> ELSE <<y[2], y[1]>>)
RAdd(x, y) == LET g == Gcd(x[2], y[2]) IN R(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
RNeg(x) == <<-x[1], x[2]>>
RSub(x, y) == RAdd(x, RNeg(y))
RAbs(x) == IF x[1] < 0 THEN RNeg(x) ELSE x
AbsInt(x) == AbsI(x)
=============================================================================
