------------------------------- MODULE Problem --------------------------------
(* The problem object as a state machine: what each call of its interface does, and what solve() owes its caller.

   A problem is separable: every decision variable has its own convex cost term, its own equalities and its own bounds,
   written in linear, quadratic and nonlinear forms; so the solver that must run, the outcome and the solution are known.
   HIST histories of LEN calls each are drawn; in addition all histories of DEPTH calls over a palette end with a solve. *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANTS LO, HI, LEN
VARIABLE v
None == 0  Const == 1  Lin == 2  Quad == 3  NonLin == 4
Max(S) == CHOOSE m \in S : \A k \in S : k <= m
Min(S) == CHOOSE m \in S : \A k \in S : m <= k
Big(i) == i % 8 = 0       \* every eighth history is about a problem with many variables and constraints
Init0 == [n |-> 0, odd |-> {}, cost |-> [form |-> None, sense |-> 0, w |-> <<>>, a |-> <<>>, par |-> FALSE],
          p |-> 0, eqs |-> <<>>, ins |-> <<>>, temps |-> <<>>, pers |-> <<>>, cid |-> 0]
(* --- what a solve must do --- *)
INF == 1000000
FType(s) == s.cost.form
EType(s) == IF s.eqs = <<>> THEN None ELSE Max({s.eqs[q].form : q \in DOMAIN s.eqs})
IType(s) == IF s.ins = <<>> THEN None ELSE Max({s.ins[q].form : q \in DOMAIN s.ins})
Target(s, k) == s.cost.a[k] + (IF s.cost.par THEN s.p ELSE 0)
Eqs(s, k) == {s.eqs[q] : q \in {q \in DOMAIN s.eqs : s.eqs[q].k = k /\ s.eqs[q].form # Const}}
NEq(s, k) == Cardinality({q \in DOMAIN s.eqs : s.eqs[q].k = k /\ s.eqs[q].form # Const})
Los(s, k, lin) == {c.b : c \in {s.ins[q] : q \in {q \in DOMAIN s.ins : s.ins[q].k = k /\ s.ins[q].form = Lin /\ s.ins[q].ge}}} \cup
                  (IF lin THEN {} ELSE {-(c.b) : c \in {s.ins[q] : q \in {q \in DOMAIN s.ins : s.ins[q].k = k /\ s.ins[q].form = Quad}}})
His(s, k, lin) == {c.b : c \in {s.ins[q] : q \in {q \in DOMAIN s.ins : s.ins[q].k = k /\ s.ins[q].form = Lin /\ ~s.ins[q].ge}}} \cup
                  (IF lin THEN {} ELSE {c.b : c \in {s.ins[q] : q \in {q \in DOMAIN s.ins : s.ins[q].k = k /\ s.ins[q].form \in {Quad, NonLin}}}})
LoB(s, k, lin) == Max(Los(s, k, lin) \cup {-INF})
HiB(s, k, lin) == Min(His(s, k, lin) \cup {INF})
Clamp(x, l, h) == IF x < l THEN l ELSE IF x > h THEN h ELSE x
InCost(s, k) == k <= Len(s.cost.w) /\ s.cost.form >= Lin
Fixed(s, k) == Eqs(s, k) # {}
Square(s, k) == \A c \in Eqs(s, k) : c.form = Quad
Contradiction(s, k) ==
  \/ LoB(s, k, FALSE) > HiB(s, k, FALSE)
  \/ \E c, d \in Eqs(s, k) : c.form # Quad /\ d.form # Quad /\ c.e # d.e
  \/ \E c, d \in Eqs(s, k) : c.form = Quad /\ d.e # c.e /\ d.e # -(c.e)
  \/ \E c \in Eqs(s, k) : c.form # Quad /\ (c.e < LoB(s, k, FALSE) \/ c.e > HiB(s, k, FALSE))
  \/ \E c \in Eqs(s, k) : c.form = Quad /\ (c.e < LoB(s, k, FALSE) \/ c.e > HiB(s, k, FALSE)) /\ (-(c.e) < LoB(s, k, FALSE) \/ -(c.e) > HiB(s, k, FALSE))
BadConst(s) == (\E q \in DOMAIN s.eqs : s.eqs[q].form = Const /\ s.eqs[q].e # 0) \/ (\E q \in DOMAIN s.ins : s.ins[q].form = Const /\ s.ins[q].b < 0)
Unbounded(s, k) == InCost(s, k) /\ s.cost.form = Lin /\ ~Fixed(s, k) /\ (IF s.cost.sense = 1 THEN HiB(s, k, FALSE) = INF ELSE LoB(s, k, FALSE) = -INF)
(* no strict interior, dependent equalities, or nonconvex: the solver may legitimately fail *)
Delicate(s) == \/ \E k \in 1..s.n : \/ LoB(s, k, FALSE) = HiB(s, k, FALSE) \/ NEq(s, k) > 1
                                     \/ \E c \in Eqs(s, k) : c.form # Lin \/ c.e = LoB(s, k, FALSE) \/ c.e = HiB(s, k, FALSE)
               \/ \E q \in DOMAIN s.eqs : s.eqs[q].form = Const
               \/ \E q \in DOMAIN s.ins : s.ins[q].form = Const
Calm(s) == \A c \in {(s.temps \o s.pers)[q] : q \in 1..(Len(s.temps) + Len(s.pers))} : c.kind \in {"v", "f"}
Loose(s) == \E q \in DOMAIN s.ins : s.ins[q].form = Const /\ s.ins[q].b = 0       \* 0 >= 0: multipliers and slack are unbounded
Noop(s) == FType(s) <= Const /\ EType(s) <= Const /\ IType(s) <= Const
Solver(s) == IF Noop(s) THEN "no-op" ELSE IF s.eqs = <<>> /\ s.ins = <<>> THEN "Newton" ELSE IF s.ins = <<>> THEN "SQP" ELSE "IPM"
Few(s) == Len(s.eqs) > s.n
Clash(s) == \E k \in 1..s.n : LoB(s, k, TRUE) > HiB(s, k, TRUE)
(* variables whose value is NaN or infinite, and whether a function that matters uses one *)
Uses(s, k) == InCost(s, k) \/ Eqs(s, k) # {} \/ (\E q \in DOMAIN s.ins : s.ins[q].k = k /\ s.ins[q].form # Const)
Outcome(s) == IF Noop(s) THEN "noop" ELSE IF Clash(s) THEN (IF Few(s) THEN "clashfew" ELSE "clash") ELSE IF Few(s) THEN "few"
              ELSE IF \E k \in s.odd : Uses(s, k) THEN "odd" ELSE IF s.odd # {} THEN "any"
              ELSE IF Loose(s) THEN "any" ELSE IF BadConst(s) \/ (\E k \in 1..s.n : Contradiction(s, k) \/ Unbounded(s, k)) THEN "bad"
              ELSE IF Delicate(s) THEN "delicate" ELSE "good"
(* [how, value, low, high] per variable, meaningful on success *)
Sol(s, k) ==
  IF Fixed(s, k) THEN (IF Square(s, k) THEN <<"abs", (CHOOSE c \in Eqs(s, k) : TRUE).e, 0, 0, TRUE>>
                       ELSE <<"is", (CHOOSE c \in Eqs(s, k) : c.form # Quad).e, 0, 0, TRUE>>)
  ELSE IF ~InCost(s, k) THEN <<"in", 0, LoB(s, k, FALSE), HiB(s, k, FALSE), FALSE>>
  ELSE IF s.cost.form = Lin THEN <<"is", IF s.cost.sense = 1 THEN HiB(s, k, FALSE) ELSE LoB(s, k, FALSE), 0, 0, FALSE>>
  ELSE <<"is", Clamp(Target(s, k), LoB(s, k, FALSE), HiB(s, k, FALSE)), 0, 0, FALSE>>
Expect(s) == [ft |-> FType(s), et |-> EType(s), it |-> IType(s), solver |-> Solver(s), out |-> Outcome(s), n |-> s.n, ne |-> Len(s.eqs), ni |-> Len(s.ins),
              cbs |-> s.temps \o s.pers, sol |-> [k \in 1..s.n |-> Sol(s, k)], p |-> s.p,
              ec |-> [t \in 1..4 |-> Cardinality({q \in DOMAIN s.eqs : s.eqs[q].form = t})], ic |-> [t \in 1..4 |-> Cardinality({q \in DOMAIN s.ins : s.ins[q].form = t})]]
(* A solve that is cut short - by the iteration limit, or by the time limit because the callback of iteration `at` took too long -
   ends at an iterate of the same solve run freely from the same values (m = its last iteration, -1 if there was none; iterate m+1
   is its answer): [status: of the free solve, of the limit, or either when a failure of the free solve and the limit fall into the
   same iteration, iterates it may end at, rounds of callbacks]. *)
Cut(kind, at, m) == IF kind = "it" /\ at <= m THEN [st |-> "limit", ends |-> <<at>>, rounds |-> at]
                    ELSE IF kind = "time" /\ at < m THEN [st |-> "limit", ends |-> <<at, at + 1>>, rounds |-> at + 1]
                    ELSE [st |-> IF (kind = "it" /\ at = m + 1) \/ (kind = "time" /\ at = m) THEN "either" ELSE "own", ends |-> <<m + 1>>, rounds |-> m + 1]
MostFree == 7    \* from here on every limit cuts (at <= 5)
Limit(kind, at) == [kind |-> kind, at |-> at, free |-> [m \in 0..MostFree |-> Cut(kind, at, m - 1)]]
ASSUME \A kind \in {"it", "time"}, at \in 0..5, m \in (MostFree - 1)..20 : Cut(kind, at, m) = Cut(kind, at, MostFree - 1)
(* the recordings a solve leaves: title, row label, column label, rows, columns *)
Recordings(s) ==
  LET h == [file |-> "H.spy", title |-> "Hessian", rl |-> "Decision variables", rows |-> s.n]
      e == [file |-> "A_e.spy", title |-> "Equality constraint Jacobian", rl |-> "Constraints", rows |-> Len(s.eqs)]
      i == [file |-> "A_i.spy", title |-> "Inequality constraint Jacobian", rl |-> "Constraints", rows |-> Len(s.ins)]
  IN  CASE Solver(s) = "no-op" -> <<>> [] Solver(s) = "Newton" -> <<h>> [] Solver(s) = "SQP" -> <<h, e>> [] Solver(s) = "IPM" -> <<h, e, i>>
(* a symmetric matrix of r rows: one variable per unordered pair, here solved for distinct targets *)
SymTarget(a, b) == IF a >= b THEN 10 * a + b ELSE 10 * b + a
Sym(r) == [q \in 1..(r * r) |-> SymTarget(((q - 1) \div r) + 1, ((q - 1) % r) + 1)]
(* --- calls --- *)
Grow(s, m) == [s EXCEPT !.n = @ + m]
Forms(i, o) == Pick(i, o, <<Lin, Quad, Quad, NonLin, Const, Quad>>)
Cb(i, o, s) == [id |-> s.cid + 1, kind |-> Pick(i, o, <<"v", "f", "v", "f", "s", "x", "f">>), at |-> Draw(i, o + 1, 3)]
EqForms == <<Lin, Lin, Lin, Quad, NonLin, Lin, Const>>
InForms == <<Lin, Lin, Lin, Quad, NonLin, Lin, Const>>
NewEq(i, o, s) == LET form == Pick(i, o, EqForms) IN
  [form |-> form, k |-> Draw(i, o + 1, s.n) + 1,
   e |-> IF form = Const THEN Pick(i, o + 2, <<0, 0, 0, 1>>) ELSE IF form = Quad THEN Draw(i, o + 2, 3) + 1 ELSE Draw(i, o + 2, 5) - 2]
NewIn(i, o, s) == LET form == Pick(i, o, InForms) IN
  [form |-> form, k |-> Draw(i, o + 1, s.n) + 1, ge |-> form = Lin /\ Draw(i, o + 3, 2) = 0,
   b |-> IF form = Const THEN Pick(i, o + 2, <<1, 2, 1, 0, 2, -1>>) ELSE IF form = Quad THEN Draw(i, o + 2, 3) + 1 ELSE Draw(i, o + 2, 7) - 3]
Call(i, t, s) ==
  LET o == 400 * t
      big == Big(i)
      many(j) == IF big /\ Draw(i, o + 90, 2) = 0 THEN 2 + Draw(i, o + j, 20) ELSE 1 + (IF Draw(i, o + j, 3) = 0 THEN 1 ELSE 0)
      room == IF big THEN 30 ELSE 4
      rows(j) == IF big THEN 4 + Draw(i, o + j, 8) ELSE Draw(i, o + j, 2) + 1
      op == Pick(i, o, <<"dv", "dm", "ds", "set", "set", "cost", "cost", "eq", "eq", "in", "in", "in", "cb", "cb", "pcb", "clear", "solve", "solve", "solve", "par", "move", "copy", "sym", "odd">>)
      v1 == Draw(i, o + 1, 7) - 3
  IN  CASE (s.n = 0 \/ op = "dv") /\ s.n < room -> <<[op |-> "dv"], Grow(s, 1)>>
        [] op = "dm" /\ s.n < room - 1 -> <<[op |-> "dm", r |-> rows(1), c |-> 1 + Draw(i, o + 2, 2)], Grow(s, rows(1) * (1 + Draw(i, o + 2, 2)))>>
        [] op = "ds" /\ s.n < room - 1 -> LET r == IF big THEN 1 + Draw(i, o + 1, 5) ELSE Draw(i, o + 1, 2) + 1 IN <<[op |-> "ds", r |-> r], Grow(s, (r * (r + 1)) \div 2)>>
        [] op = "set" -> <<[op |-> "set", k |-> Draw(i, o + 2, s.n) + 1, x |-> v1], [s EXCEPT !.odd = @ \ {Draw(i, o + 2, s.n) + 1}]>>
        [] op = "odd" -> <<[op |-> "odd", k |-> Draw(i, o + 2, s.n) + 1, x |-> Pick(i, o + 3, <<"nan", "inf">>)], [s EXCEPT !.odd = @ \cup {Draw(i, o + 2, s.n) + 1}]>>
        [] op = "par" -> <<[op |-> "par", x |-> v1], [s EXCEPT !.p = v1]>>
        [] op = "cost" -> LET c == [form |-> Forms(i, o + 1), sense |-> Draw(i, o + 2, 2), w |-> PickSeq(i, o + 3, s.n, <<1, 2, 1, 3>>),
                                    a |-> [k \in 1..s.n |-> Draw(i, o + 4 + k, 7) - 3], par |-> Draw(i, o + 20, 3) = 0]
                          IN  <<[op |-> "cost", c |-> c, style |-> Draw(i, o + 21, 3)], [s EXCEPT !.cost = c]>>
        [] op = "eq" -> LET m == many(1)
                            cs == [q \in 1..m |-> NewEq(i, o + 10 * q, s)]
                        IN  <<[op |-> "eq", cs |-> cs, style |-> Draw(i, o + 2, 3)], [s EXCEPT !.eqs = @ \o cs]>>
        [] op = "in" -> LET m == many(1)
                            cs == [q \in 1..m |-> NewIn(i, o + 10 * q, s)]
                        IN  <<[op |-> "in", cs |-> cs, style |-> Draw(i, o + 2, 3)], [s EXCEPT !.ins = @ \o cs]>>
        [] op = "cb" -> <<[op |-> "cb", c |-> Cb(i, o + 1, s)], [s EXCEPT !.temps = Append(@, Cb(i, o + 1, s)), !.cid = @ + 1]>>
        [] op = "pcb" -> LET c == Cb(i, o + 1, s)  d == [c EXCEPT !.kind = IF @ = "v" THEN "f" ELSE @]
                         IN  <<[op |-> "pcb", c |-> d], [s EXCEPT !.pers = Append(@, d), !.cid = @ + 1]>>
        [] op = "clear" -> <<[op |-> "clear"], [s EXCEPT !.temps = <<>>]>>
        [] op = "sym" -> LET r == Draw(i, o + 1, IF big THEN 9 ELSE 5) + 1 IN <<[op |-> "sym", r |-> r, sol |-> Sym(r), n |-> (r * (r + 1)) \div 2], s>>
        [] op \in {"move", "copy"} -> <<[op |-> op], s>>
        \* a solve that does not end at a known solution may leave any values behind: the caller sets them again
        [] OTHER -> LET lim == IF Calm(s) THEN Pick(i, o + 40, <<"none", "none", "it", "time">>) ELSE "none" IN
                    <<[op |-> "solve", e |-> Expect(s), style |-> Draw(i, o + 5, 4), lim |-> Limit(lim, Draw(i, o + 41, 6)),
                       spy |-> IF Calm(s) /\ Draw(i, o + 42, 4) = 0 THEN <<Recordings(s)>> ELSE <<>>,
                       reset |-> IF Outcome(s) = "good" /\ Calm(s) /\ lim = "none" THEN <<>> ELSE [k \in 1..s.n |-> Draw(i, o + 6 + k, 7) - 3]], [s EXCEPT !.odd = {}]>>
RECURSIVE Run(_, _, _)
Run(i, t, s) == IF t > LEN THEN <<[op |-> "types", e |-> Expect(s)], [op |-> "solve", e |-> Expect(s), style |-> 0, lim |-> Limit("none", 0), spy |-> <<>>, reset |-> <<>>]>>
                ELSE LET r == Call(i, t, s) IN <<r[1]>> \o Run(i, t + 1, r[2])
Case(i) == [i |-> i, hist |-> Run(i, 1, Init0)]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
(* sanity of the oracle: the solver is a function of the structure, iterating solvers have something to vary *)
Sound == \A q \in DOMAIN v.hist : v.hist[q].op = "solve" =>
   LET e == v.hist[q].e IN /\ (e.solver = "no-op") = (e.out = "noop")
                           /\ (e.solver = "IPM" => e.ni > 0) /\ (e.solver = "SQP" => e.ne > 0 /\ e.ni = 0) /\ (e.solver = "Newton" => e.ne + e.ni = 0 /\ e.ft >= Lin)
                           /\ (e.out = "good" => e.ne <= e.n)
(* one unordered pair, one variable *)
Pairs == \A r \in 1..9 : \A p, q \in 1..(r * r) :
   LET a == (p - 1) \div r  b == (p - 1) % r  c == (q - 1) \div r  d == (q - 1) % r IN (Sym(r)[p] = Sym(r)[q]) = (<<c, d>> = <<a, b>> \/ <<d, c>> = <<a, b>>)
ASSUME Pairs
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
