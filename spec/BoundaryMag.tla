----------------------------- MODULE BoundaryMag -----------------------------
(* The fraction-to-the-boundary rule over the whole range of floating-point magnitudes: components are m * 2^e, the rule's answer
   is the least of one and tau x / -p over the components that move towards their boundary, an exact [num, den, 2-exponent]. *)
EXTENDS Rand, Integers, Sequences, TLC, Json
CONSTANTS LO, HI
VARIABLE i
Init == i = LO
Next == i < HI /\ i' = i + 1
Spec == Init /\ [][Next]_i
(* exponents: down to denormal numbers *)
Xe(fl) == IF fl THEN <<-135, -130, -110, -100, -60, -10, 0, 0, 3, 40, 100>> ELSE <<-1060, -1050, -1030, -1000, -990, -300, -60, -10, 0, 0, 3, 40, 300, 1000>>
Pe(fl) == IF fl THEN <<-149, -140, -134, -130, -126, -100, -60, -12, 0, 0, 10, 40, 100>> ELSE <<-1074, -1070, -1060, -1052, -1040, -1022, -1000, -300, -60, -12, 0, 0, 10, 40, 300, 1000>>
Taus == <<<<1, 1>>, <<99, 100>>, <<1, 2>>, <<199, 200>>, <<1, 128>>>>
Fl == Draw(i, 1, 2) = 0
Len_ == Draw(i, 2, 5) + 1
Tau == Pick(i, 3, Taus)
Base == Draw(i, 4, 3)      \* 0: magnitudes mixed freely; otherwise all of one pair of magnitudes
X(k) == <<Draw(i, 10 + k, 9) + 1, Pick(i, IF Base = 0 THEN 20 + k ELSE 20, Xe(Fl))>>
P(k) == <<Draw(i, 30 + k, 14) - 10, Pick(i, IF Base = 0 THEN 40 + k ELSE 40, Pe(Fl))>>
One == <<1, 1, 0>>
(* a/b * 2^e < c/d * 2^f for positive a, b, c, d below 2^14 *)
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Gap == 15
Less(q, r) == LET de == q[3] - r[3] IN
  IF de > 2 * Gap THEN FALSE ELSE IF de < -2 * Gap THEN TRUE
  ELSE LET l == q[1] * r[2]  rr == r[1] * q[2] IN        \* each below 2^25
       IF de = 0 THEN l < rr
       ELSE IF de > 0 THEN (IF de <= 6 THEN l * Pow2(de) < rr ELSE l < (rr \div Pow2(de)) \/ (l = (rr \div Pow2(de)) /\ (rr % Pow2(de)) # 0))
       ELSE (IF -de <= 6 THEN l < rr * Pow2(-de) ELSE ~((rr < (l \div Pow2(-de))) \/ rr = (l \div Pow2(-de))))
Limit(k) == <<Tau[1] * X(k)[1], Tau[2] * (-P(k)[1]), X(k)[2] - P(k)[2]>>
RECURSIVE Least(_, _)
Least(k, a) == IF k > Len_ THEN a ELSE Least(k + 1, IF P(k)[1] < 0 /\ Less(Limit(k), a) THEN Limit(k) ELSE a)
Alpha == Least(1, One)
(* no component crosses, and the answer is one of the candidates: hence the largest *)
Sound == \A k \in 1..Len_ : P(k)[1] >= 0 \/ ~Less(Limit(k), Alpha)
Candidate == Alpha = One \/ \E k \in 1..Len_ : P(k)[1] < 0 /\ Alpha = Limit(k)
(* below this a product with tau is rounded coarsely *)
Coarse == \E k \in 1..Len_ : X(k)[2] < (IF Fl THEN -126 ELSE -1022)
Emit == PrintT("@V" \o ToJson([fl |-> Fl, x |-> [k \in 1..Len_ |-> X(k)], p |-> [k \in 1..Len_ |-> P(k)], tau |-> Tau, a |-> Alpha, coarse |-> Coarse]))
=============================================================================
