--------------------------------- MODULE Diag ---------------------------------
(* What the printed reports must say about the data they are given. *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANT NS
VARIABLE v
Quarter == <<0, 0, 0, 1, -1, 4, -4, 6, -10, 400000, -1, 1>>      \* in quarters
Power == <<0, 0, 0, -30, -56, -60, -300, -1070, 90, 600>>
Viol(i) ==
  LET n == Draw(i, 1, 5)
      c == PickSeq(i, 2, n, Quarter)
      pw == PickSeq(i, 4, n, Power)   \* magnitudes: a residual of 2^-1072 is a violation like any other
      eq == Draw(i, 3, 3)          \* 0: too few degrees of freedom, 1: equalities, 2: inequalities
      bad(k) == IF eq = 2 THEN c[k] < 0 ELSE c[k] # 0
      RECURSIVE Go(_)
      Go(k) == IF k > n THEN <<>> ELSE (IF bad(k) THEN <<<<k, n, c[k], pw[k]>>>> ELSE <<>>) \o Go(k + 1)
  IN  [k |-> "viol", which |-> eq, c |-> c, pw |-> pw, rows |-> Go(1)]
Conf(i) == LET n == Draw(i, 1, 4) IN [k |-> "conf", p |-> [q \in 1..n |-> <<Draw(i, 10 + q, 9), Draw(i, 20 + q, 9)>>]]
(* a bar of w cells shows floor(8 w x) eighths of a normalised value x = num / 64 *)
Hist(i) == LET w == Pick(i, 1, <<1, 2, 9, 16>>)  num == Draw(i, 2, 97) - 16
               x == IF num < 0 THEN 0 ELSE IF num > 64 THEN 64 ELSE num
               e == (w * x) \div 8
           IN  [k |-> "hist", w |-> w, num |-> num, full |-> e \div 8, part |-> e % 8]
Pow(i) == [k |-> "pow", e |-> Draw(i, 1, 41) - 20, zero |-> Draw(i, 2, 12) = 0]
Iter(i) == [k |-> "iter", it |-> Pick(i, 1, <<0, 1, 7, 19, 20, 21, 40, 123, 1000>>), type |-> Draw(i, 2, 3), us |-> Draw(i, 3, 40000),
            num |-> PickSeq(i, 4, 7, <<0, 1, 2, 5, 100, 250, 40>>), back |-> Draw(i, 5, 21), dual |-> Draw(i, 6, 5), amax |-> Pick(i, 7, <<64, 64, 33, 7>>)]
(* time traces: each timed part's share of the first one's time, its total, its mean and its runs; microseconds *)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
Trace(i) ==
  LET solve == Draw(i, 1, 2) = 0
      n == Draw(i, 2, 5) + 1
      unit == Pick(i, 3, <<777, 1000, 12345>>)
      zero == Draw(i, 4, 6) = 0
      runs(k) == IF ~solve THEN 1 ELSE IF k = 1 THEN 1 ELSE Draw(i, 10 + k, 4)
      d(k) == [r \in 1..runs(k) |-> IF zero THEN 0 ELSE unit * Draw(i, 20 * k + r, IF k = 1 THEN 1 ELSE 33)]
      t == [k \in 1..n |-> IF k = 1 THEN <<IF zero THEN 0 ELSE unit * Pick(i, 5, <<96, 97, 100, 128, 150>>)>> ELSE d(k)]
      tot == [k \in 1..n |-> Sum(t[k], Len(t[k]))]
      \* share in hundredths of a percent, rounded down, and eighths of the bar's nine cells
      row(k) == [runs |-> Len(t[k]), tot |-> tot[k], bp |-> IF tot[1] = 0 THEN (IF k = 1 THEN 10000 ELSE 0) ELSE ((tot[k] \div unit) * 10000) \div (tot[1] \div unit),
                 e |-> IF tot[1] = 0 THEN (IF k = 1 THEN 72 ELSE 0) ELSE ((tot[k] \div unit) * 72) \div (tot[1] \div unit)]
  IN  [k |-> "trace", solve |-> solve, t |-> t, rows |-> [k \in 1..n |-> row(k)]]
Case(i) == IF i % 11 = 10 THEN Trace(i) ELSE LET w == i % 5 IN IF w = 0 THEN Viol(i) ELSE IF w = 1 THEN Conf(i) ELSE IF w = 2 THEN Hist(i) ELSE IF w = 3 THEN Pow(i) ELSE Iter(i)
Init == v \in {Case(i) : i \in 1..NS}
Next == UNCHANGED v
Bars == v.k = "hist" => v.full * 8 + v.part <= 8 * v.w /\ v.part < 8
Rows == v.k = "viol" => \A a, b \in DOMAIN v.rows : a < b => v.rows[a][1] < v.rows[b][1]
Shares == v.k = "trace" => \A q \in DOMAIN v.rows : v.rows[q].tot <= v.rows[1].tot => v.rows[q].bp <= 10000 /\ v.rows[q].e <= 72
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
