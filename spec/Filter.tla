--------------------------------- MODULE Filter ---------------------------------
(* The step filter. A filter object receives trial points; histories of Try/Reset actions.

   Costs are [c, m] = c + m * 1e-13 (c integer, or the token NAN/PINF/NINF); violations are [b, k] = b * (1 - k * 1.25e-6)
   with b an index into the violation bases VB. |m|, |k| are small enough for lexicographic comparison:
   the required decreases (1e-8 * phi * violation for the cost, 1e-5 * phi relative for the violation, 1e-8 * alpha * D
   for the Armijo test) are then exact multiples. Comparisons that rounding could decide either way are not generated.

   A behaviour is a deterministic pseudo-random chain (id, step), so that every run explores the same histories. *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANTS NB, LEN
VARIABLES id, step, filter, banned, flag, cur, last
vars == <<id, step, filter, banned, flag, cur, last>>
NAN == 1000
PINF == 1001
NINF == -1001
Abs(x) == IF x < 0 THEN -x ELSE x
(* violation bases: 1: 0   2: 8e-5 (below the threshold 1e-4)   3: 1   4: 2   5: 2e4 (beyond 1e4)   6: NaN   7: +inf   8: 900*)
(* 1e-8 * base in cost units, an eighth *)
GammaCost(b) == CASE b = 1 -> 0 [] b = 2 -> 1 [] b = 3 -> 12500 [] b = 4 -> 25000 [] b = 8 -> 11250000
LowViol(v) == v[1] \in {1, 2}
Finite(e) == e.cost[1] \notin {NAN, PINF, NINF} /\ e.viol[1] \notin {6, 7}
(* alpha in {1, 1/4}; phi = alpha^1.5 in {1, 1/8}; AI = 1 or 2 *)
Phi8(ai) == IF ai = 1 THEN 8 ELSE 1
(* directional derivatives: 1: 0   2: -1   3: -10   4: +1   5: -1e-3   6: -1.5   7: -0.0146 ; 1e-8 * alpha * D in cost units (1e-13) *)
ArmijoUnits(di, ai) == LET a == CASE di = 1 -> 0 [] di = 2 -> -100000 [] di = 3 -> -1000000 [] di = 4 -> 100000 [] di = 5 -> -100 [] di = 6 -> -150000 [] di = 7 -> -1460
                       IN  IF ai = 1 THEN a ELSE a \div 4
(* alpha * (-D)^2.3 > violation^1.1 *)
Switching(di, ai, v) ==
  CASE di \in {1, 4} -> FALSE
    [] di = 2 -> v[1] \in {1, 2}                       \* 1 or .25 against 0, 3e-5, 1, 2.1, 1780
    [] di = 3 -> v[1] \in {1, 2, 3, 4}                  \* 199 or 49
    [] di = 5 -> v[1] = 1                              \* 1.3e-7
    [] di = 6 -> v[1] \in {1, 2} \/ (ai = 1 /\ v[1] \in {3, 4})      \* 2.54 or .635
    [] di = 7 -> v[1] = 1 \/ (ai = 1 /\ v[1] = 2)      \* 6e-5 or 1.5e-5 against 3.1e-5
(* alpha = 1, D = -1, violation 1: a tie; not generated *)
SwitchTie(di, ai, v) == di = 2 /\ ai = 1 /\ v[1] = 3
CLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Less(c, units) == <<c[1], c[2] - units>>
Rank(b) == CASE b = 1 -> 0 [] b = 2 -> 1 [] b = 3 -> 2 [] b = 4 -> 3 [] b = 8 -> 4 [] OTHER -> 5
VLe(a, b) == Rank(a[1]) < Rank(b[1]) \/ (a[1] = b[1] /\ (a[1] = 1 \/ a[2] >= b[2]))
(* comparisons too close to call for floating point *)
CTie(a, b) == a[1] = b[1] /\ a[2] # b[2] /\ (a[2] - b[2]) \in -20..20
CTie0(a, b) == a[1] = b[1] /\ (a[2] - b[2]) \in -20..20
VTie(a, b) == a[1] = b[1] /\ a[1] # 1 /\ a[2] = b[2]
Dominated(e, f) == CLe(f.cost, e.cost) /\ VLe(f.viol, e.viol)
(* the region kept out after accepting a point from cur *)
Kept(c, ai) == [cost |-> Less(c.cost, Phi8(ai) * GammaCost(c.viol[1])), viol |-> <<c.viol[1], c.viol[2] + Phi8(ai)>>]
Entry(i, j) ==
  LET z == Draw(i, j, 14)
  IN  [cost |-> IF z = 0 THEN <<Pick(i, j + 1, <<NAN, PINF, NINF>>), 0>>
                ELSE <<Draw(i, j + 2, 5) - 2, Pick(i, j + 3, <<0, 0, 40, -40, 150, -900000, 900000, -100060, -2000000>>)>>,
       viol |-> <<Pick(i, j + 4, <<1, 2, 2, 3, 3, 3, 4, 4, 8, 5, 6, 7>>), Pick(i, j + 5, <<0, 0, 1, 5, 9, 20, -3>>)>>]
Regular(e) == Finite(e) /\ e.viol[1] # 5
K == id * 64 + step
(* half of the trials lie near the current point *)
Near(e, i) == [cost |-> <<e.cost[1], e.cost[2] + Pick(i, 31, <<0, 60, -60, -1700000, -200050, -2000000, -900, 900, 130>>)>>,
               viol |-> <<e.viol[1], e.viol[2] + Pick(i, 32, <<0, 2, 7, 9, 10, -1, 12>>)>>]
Trial == IF Draw(K, 30, 3) > 0 THEN Near(cur, K) ELSE Entry(K, 33)
DI == Draw(K, 50, 7) + 1
AI == Draw(K, 51, 2) + 1
Init == /\ id \in 1..NB /\ step = 0 /\ filter = {} /\ banned = {} /\ flag = FALSE
        /\ cur = [cost |-> <<0, 0>>, viol |-> <<3, 0>>] /\ last = [op |-> "new"]
Ambiguous(t) ==
  /\ Finite(t) /\ t.viol[1] # 5
  /\ \/ SwitchTie(DI, AI, cur.viol)
     \/ CTie0(t.cost, <<cur.cost[1], cur.cost[2] + ArmijoUnits(DI, AI)>>)
     \/ (cur.viol[1] # 1 /\ CTie0(t.cost, Kept(cur, AI).cost))
     \/ (cur.viol[1] = 1 /\ CTie(t.cost, cur.cost))
     \/ VTie(t.viol, Kept(cur, AI).viol)
     \/ \E f \in filter \cup banned : CTie(t.cost, f.cost) \/ (f.viol[1] # 1 /\ CTie0(t.cost, f.cost)) \/ VTie(t.viol, f.viol)
     \/ \E f \in filter : CTie0(f.cost, Kept(cur, AI).cost) \/ VTie(f.viol, Kept(cur, AI).viol)
     \/ Abs(t.cost[2]) > 100000000 \/ Abs(t.viol[2]) > 400
Outcome(t) ==
  LET sw == Switching(DI, AI, cur.viol)
      arm == CLe(t.cost, <<cur.cost[1], cur.cost[2] + ArmijoUnits(DI, AI)>>)
      suff == CLe(t.cost, Kept(cur, AI).cost) \/ VLe(t.viol, Kept(cur, AI).viol)
  IN  IF ~Finite(t) \/ t.viol[1] = 5 THEN [ok |-> FALSE, flag |-> FALSE, aug |-> FALSE]
      ELSE IF (IF LowViol(cur.viol) /\ sw THEN ~arm ELSE ~suff) THEN [ok |-> FALSE, flag |-> FALSE, aug |-> FALSE]
      ELSE IF \E f \in filter : Dominated(t, f) THEN [ok |-> FALSE, flag |-> TRUE, aug |-> FALSE]
      ELSE [ok |-> TRUE, flag |-> flag, aug |-> ~sw \/ ~arm]
Try ==
  /\ Draw(K, 60, 12) # 0
  /\ LET t == Trial
         r == Outcome(t)
         kept == Kept(cur, AI)
     IN  IF Ambiguous(t) THEN last' = [op |-> "skip"] /\ UNCHANGED <<filter, banned, flag, cur>>
         ELSE /\ filter' = IF r.aug THEN {f \in filter : ~Dominated(f, kept)} \cup {kept} ELSE filter
              /\ banned' = IF r.aug THEN banned \cup {kept} ELSE banned
              /\ flag' = r.flag
              /\ last' = [op |-> "try", cur |-> cur, t |-> t, di |-> DI, ai |-> AI, ok |-> r.ok, flag |-> r.flag,
                          aug |-> r.aug, nf |-> Cardinality(filter)]
              /\ cur' = IF r.ok /\ Draw(K, 61, 6) > 0 THEN t
                        ELSE IF Draw(K, 62, 4) = 0 /\ Regular(Entry(K, 70)) THEN Entry(K, 70) ELSE cur
Reset ==
  /\ Draw(K, 60, 12) = 0
  /\ filter' = {} /\ banned' = {} /\ flag' = FALSE /\ last' = [op |-> "reset"] /\ UNCHANGED cur
Next == /\ step < LEN /\ step' = step + 1 /\ UNCHANGED id
        /\ (Try \/ Reset)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------------
(* no accepted point lies in a region that was ever excluded since the last reset, although entries are pruned *)
NeverForgets == (last.op = "try" /\ last.ok) => \A f \in banned : (~last.aug \/ f # Kept(last.cur, last.ai)) => ~Dominated(last.t, f)
(* whatever is not in the filter any more is covered by what is *)
Covered == \A f \in banned : \E h \in filter : Dominated(f, h)
OnlyFinite == (last.op = "try" /\ last.ok) => Finite(last.t) /\ last.t.viol[1] # 5
(* accepted points make progress on cost or violation *)
Progress == (last.op = "try" /\ last.ok) =>
  \/ CLe(last.t.cost, last.cur.cost)
  \/ VLe(last.t.viol, last.cur.viol)
Emit == last.op # "skip" => PrintT("@V" \o ToJson([id |-> id, step |-> step, a |-> last]))
=============================================================================
