-------------------------------- MODULE Truth --------------------------------
(* When a comparison holds: the sides are m * 2^e over the whole range of magnitudes, and the comparison's truth is that of the
   exact numbers. Sets of comparisons hold iff all do; two-sided bounds are two comparisons. *)
EXTENDS Rand, Integers, Sequences, TLC, Json
CONSTANTS LO, HI
VARIABLE i
Init == i = LO
Next == i < HI /\ i' = i + 1
Spec == Init /\ [][Next]_i
Exps == <<-1074, -1060, -60, -30, -53, 0, 0, 52, 300>>
(* magnitude classes far apart: m in -3..3, so numbers of different exponents differ by their exponents when these differ by more than 1 *)
Fin(o) == <<Draw(i, o, 7) - 3, Pick(i, o + 1, Exps)>>
(* not a number is ordered with nothing; an infinity lies beyond every number (two infinities are not compared: their difference is no number) *)
NaN == <<0, 6000>>
IsNaN(a) == a[2] = 6000
IsInf(a) == a[2] = 5000
Num(o) == LET d == Draw(i, o + 1000, 25) IN IF d = 0 THEN NaN ELSE IF d = 1 THEN <<1, 5000>> ELSE IF d = 2 THEN <<-1, 5000>> ELSE Fin(o)
Sign(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0
RECURSIVE Shift(_, _)
Shift(m, k) == IF k = 0 THEN m ELSE Shift(2 * m, k - 1)
(* the order of two numbers *)
Less(a, b) == IF Sign(a) # Sign(b) THEN Sign(a) < Sign(b)
              ELSE IF Sign(a) = 0 THEN FALSE
              ELSE IF a[2] = b[2] THEN a[1] < b[1]
              ELSE IF a[2] < b[2] THEN (IF b[2] - a[2] > 20 THEN Sign(a) > 0 ELSE a[1] < Shift(b[1], b[2] - a[2]))
              ELSE (IF a[2] - b[2] > 20 THEN Sign(a) < 0 ELSE Shift(a[1], a[2] - b[2]) < b[1])
Eq(a, b) == ~Less(a, b) /\ ~Less(b, a)
Ops == <<"==", "<=", ">=", "<", ">">>
Holds(op, a, b) == IF IsNaN(a) \/ IsNaN(b) THEN FALSE ELSE CASE op = "==" -> Eq(a, b) [] op \in {"<=", "<"} -> ~Less(b, a) [] op \in {">=", ">"} -> ~Less(a, b)
N == Draw(i, 2, 3) + 1
L(k) == Num(20 + 4 * k)
(* the right side: another number, the same one, or the neighbour of the left one *)
R(k) == LET d == Draw(i, 40 + k, 4) IN IF IsInf(L(k)) \/ IsNaN(L(k)) THEN Fin(60 + 4 * k) ELSE IF d = 0 THEN L(k) ELSE IF d = 1 THEN <<L(k)[1] + 1, L(k)[2]>> ELSE IF d = 2 THEN <<L(k)[1] - 1, L(k)[2]>> ELSE Num(60 + 4 * k)      \* an infinity at most on one side
Op == Pick(i, 1, Ops)
Kinds == <<"vv", "vn", "nv", "mm", "mn", "nm", "mv", "vm", "me", "em">>
(* in the mixed kinds one side is a scalar used for every element *)
Kind == Pick(i, 3, Kinds)
Tame(a, b) == IF IsInf(a) /\ IsInf(b) THEN <<1, 0>> ELSE b
Lk(k) == IF Kind \in {"vm", "nm"} THEN L(1) ELSE L(k)
Rk(k) == IF Kind \in {"mv", "mn"} THEN (IF \E j \in 1..3 : IsInf(L(j)) THEN Fin(60) ELSE R(1)) ELSE Tame(Lk(k), R(k))
M == IF Kind \in {"vv", "vn", "nv"} THEN 1 ELSE N
Truths == [k \in 1..M |-> Holds(Op, Lk(k), Rk(k))]
All(q) == \A k \in DOMAIN q : q[k]
(* bounds(l, x, u) *)
Bl == Num(80)
Bx == IF Draw(i, 84, 3) = 0 /\ ~IsInf(Bl) THEN Bl ELSE Tame(Bl, Num(85))
Bu == IF Draw(i, 87, 3) = 0 /\ ~IsInf(Bx) THEN Bx ELSE Tame(Bx, Num(88))
Bound == Holds("<=", Bl, Bx) /\ Holds("<=", Bx, Bu)
Total == \A k \in 1..M : \/ IsNaN(Lk(k)) \/ IsNaN(Rk(k))
                        \/ ((Less(Lk(k), Rk(k)) \/ Less(Rk(k), Lk(k)) \/ Eq(Lk(k), Rk(k))) /\ ~(Less(Lk(k), Rk(k)) /\ Less(Rk(k), Lk(k))))
Emit == PrintT("@V" \o ToJson([op |-> Op, kind |-> Kind, l |-> [k \in 1..M |-> Lk(k)], r |-> [k \in 1..M |-> Rk(k)], t |-> Truths, all |-> All(Truths),
                               b |-> <<Bl, Bx, Bu>>, bound |-> Bound]))
=============================================================================
