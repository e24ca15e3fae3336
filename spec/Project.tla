-------------------------------- MODULE Project --------------------------------
(* Moving a point into its bounds, kept at a distance: kl/128 * max(1, |bound|), but at most k2/128 of the room. *)
EXTENDS Rat, Rand, TLC, Json
CONSTANTS LO, HI
VARIABLE v
E == <<0, 0, 1, -1, 2, -2, 3, -5, 8, 100, -100, 64>>
D == <<1, 1, 1, 2, 4, 16, 64>>
K == <<1, 2, 16, 32, 1, 60>>
Q(i, j) == R(Pick(i, j, E), Pick(i, j + 1, D))
Clamp(lo, hi, x, k1, k2) ==
  LET dl == RMul(k1, RMax(<<1, 1>>, RAbs(lo)))  du == RMul(k1, RMax(<<1, 1>>, RAbs(hi)))
      room == RMul(k2, RSub(hi, lo))
      pl == RMin(dl, room)  pu == RMin(du, room)
  IN  RMin(RMax(RAdd(lo, pl), x), RSub(hi, pu))
One(i, j, k1, k2) ==
  LET a == Q(i, j)  b == Q(i, j + 2)  w == Draw(i, j + 6, 6)
      lo == IF w = 0 THEN << >> ELSE IF w = 5 THEN b ELSE RMin(a, b)
      hi == IF w = 1 THEN << >> ELSE IF w = 5 THEN b ELSE RMax(a, b)
      x == Q(i, j + 4)
      lo2 == IF w = 2 /\ Draw(i, j + 7, 2) = 0 THEN << >> ELSE lo
      hi2 == IF lo2 = << >> /\ w = 2 THEN << >> ELSE hi
      r == IF lo2 # << >> /\ hi2 # << >> THEN Clamp(lo2, hi2, x, k1, k2)
           ELSE IF lo2 # << >> THEN RMax(x, RAdd(lo2, RMul(k1, RMax(<<1, 1>>, RAbs(lo2)))))
           ELSE IF hi2 # << >> THEN RMin(x, RSub(hi2, RMul(k1, RMax(<<1, 1>>, RAbs(hi2)))))
           ELSE x
  IN  [lo |-> lo2, hi |-> hi2, x |-> x, r |-> r]
Case(i) == LET k1 == R(Pick(i, 1, K), 128)  k2 == R(Pick(i, 2, K), 128)  n == Draw(i, 3, 5)
           IN  [i |-> i, k1 |-> k1, k2 |-> k2, xs |-> [j \in 1..n |-> One(i, 10 + 20 * j, k1, k2)]]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
(* strictly inside whenever the bounds leave room, on the bound otherwise *)
Inside == \A j \in 1..Len(v.xs) : LET s == v.xs[j] IN
            /\ s.lo # << >> /\ s.hi # << >> /\ s.lo = s.hi => s.r = s.lo
            /\ s.lo # << >> /\ (s.hi = << >> \/ s.hi # s.lo) => RLt(s.lo, s.r)
            /\ s.hi # << >> /\ (s.lo = << >> \/ s.hi # s.lo) => RLt(s.r, s.hi)
(* points comfortably inside do not move, and nothing moves away from where it was needed *)
Far(s, x) == /\ s.lo # << >> => RLe(RAdd(s.lo, RMul(v.k1, RMax(<<1, 1>>, RAbs(s.lo)))), x)
             /\ s.hi # << >> => RLe(x, RSub(s.hi, RMul(v.k1, RMax(<<1, 1>>, RAbs(s.hi)))))
Still == \A j \in 1..Len(v.xs) : Far(v.xs[j], v.xs[j].x) => v.xs[j].r = v.xs[j].x
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
