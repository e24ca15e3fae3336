------------------------------ MODULE SolverCases ------------------------------
(* Scenarios for the solvers: problems as sums of products of elementary factors, options, callbacks that stop,
   a clock that advances with evaluations or iterations, and non-finite results at chosen evaluations.
   A factor <<v, k>> is variable v to the power k < 100, or a function: 100 exp, 101 log, 102 sqrt, 103 sin,
   104 cos, 105 reciprocal. Coefficients are in halves. Times are in quarter ticks. *)
EXTENDS Rand, TLC, Json
CONSTANTS LO, HI
VARIABLE v
Kinds == <<"newton", "sqp", "ipm", "ipm">>
Coef == <<-6, -4, -2, 2, 4, 6, 1, -1>>
Funs == <<100, 101, 102, 103, 104, 105>>
Starts == <<0, 2, -2, 4, 1, 10, -6>>     \* halves
(* term k of function o: no, one or two different variables *)
Term(i, o, k, n, deg, sp) ==
  LET q == o + 40 * k
      nv == Draw(i, q + 1, 3)
      a == Draw(i, q + 2, n)
      b == Draw(i, q + 3, n)
      fac(w, z) == <<w, IF Draw(i, q + z, 10) < sp THEN Pick(i, q + z + 1, Funs) ELSE Draw(i, q + z + 2, deg) + 1>>
  IN  [c |-> Pick(i, q + 4, Coef),
       f |-> IF nv = 0 THEN << >> ELSE IF nv = 1 \/ a = b THEN <<fac(a, 5)>> ELSE <<fac(a, 5), fac(b, 10)>>]
Poly(i, o, n, deg, nt, sp) == [k \in 1..(Draw(i, o, nt) + 1) |-> Term(i, o, k, n, deg, sp)]
Square(w) == [c |-> 2, f |-> << <<w, 2>> >>]
RECURSIVE Squares(_, _, _)
Squares(i, n, w) == IF w = n THEN << >> ELSE (IF Draw(i, 20 + w, 10) < 7 THEN <<Square(w)>> ELSE << >>) \o Squares(i, n, w + 1)
Fns(kind, me, mi) == <<"f", "g", "H">> \o (IF me > 0 THEN <<"ce", "Ae">> ELSE << >>) \o (IF mi > 0 THEN <<"ci", "Ai">> ELSE << >>)
                     \o (IF kind = "newton" THEN << >> ELSE <<"Hc">>)
Fault(i, o, fns) == [fn |-> Pick(i, o, fns), nth |-> Pick(i, o + 1, <<0, 1, 2, 3, 5, 8, 13, 20>>), val |-> Pick(i, o + 2, <<"nan", "inf", "-inf">>),
                     entry |-> Draw(i, o + 3, 9), len |-> Pick(i, o + 4, <<1, 1, 30, 60, 1000000>>)]
(* a run of bad results long enough to exhaust the line search, so that the restoration phase starts *)
Exhaust(i, o, fns) == [fn |-> Pick(i, o, SubSeq(fns, 1, 1) \o SubSeq(fns, 4, Len(fns))), nth |-> Draw(i, o + 1, 5) + 1, val |-> Pick(i, o + 2, <<"nan", "inf", "-inf">>),
                       entry |-> Draw(i, o + 3, 9), len |-> Pick(i, o + 4, <<24, 25, 30>>)]
(* costs that are finite but hopeless until the line search is exhausted, and what the last resort finds then *)
LastResort(i, o, kind) ==
  LET nth == Pick(i, o, <<1, 1, 1, 2, 3>>)
      len == IF kind = "newton" THEN Draw(i, o + 1, 3) + 66 ELSE Draw(i, o + 1, 3) + 23
  IN  << [fn |-> "f", nth |-> nth, val |-> "1e300", entry |-> 0, len |-> len],
         [fn |-> "f", nth |-> nth + len, val |-> Pick(i, o + 2, <<"nan", "inf", "-inf", "nan">>), entry |-> 0, len |-> Pick(i, o + 3, <<1, 1, 2, 30>>)] >>
Case(i) ==
  LET n == Draw(i, 1, 3) + 1
      kind == Pick(i, 2, Kinds)
      over == Draw(i, 3, 25) = 0                                    \* more equalities than variables
      me == IF kind = "newton" THEN 0 ELSE IF over THEN n + 1 ELSE IF kind = "sqp" THEN Draw(i, 4, n) + 1 ELSE Draw(i, 4, n + 1)
      mi == IF kind = "ipm" THEN Draw(i, 5, 3) + 1 ELSE 0
      sp == Pick(i, 6, <<0, 0, 3>>)
      rest == kind # "newton" /\ Draw(i, 19, 3) = 0
      nf == IF rest THEN 1 ELSE IF Draw(i, 7, 2) = 0 THEN 0 ELSE Draw(i, 8, 2) + 1
      ident == Draw(i, 9, 10) < 6
      nc == Pick(i, 10, <<1, 1, 2, 3, 0>>)
      tc == Pick(i, 11, <<0, 4, 4>>)
  IN  [i |-> i, kind |-> kind, n |-> n, me |-> me, mi |-> mi, nc |-> nc,
       x |-> [w \in 1..n |-> Pick(i, 30 + w, Starts)],
       f |-> (IF Draw(i, 12, 40) = 0 THEN << >> ELSE Poly(i, 1000, n, 3, 4, sp)) \o Squares(i, n, 0),
       ce |-> [k \in 1..me |-> Poly(i, 2000 + 500 * k, n, 2, 3, sp \div 2)],
       ci |-> [k \in 1..mi |-> Poly(i, 5000 + 500 * k, n, 2, 3, sp \div 2)],
       faults |-> IF Draw(i, 22, 20) = 0 THEN LastResort(i, 8050, kind) ELSE [k \in 1..nf |-> IF rest THEN Exhaust(i, 8000, Fns(kind, me, mi)) ELSE Fault(i, 8000 + 10 * k, Fns(kind, me, mi))],
       stops |-> [k \in 1..nc |-> Pick(i, 8100 + k, IF rest THEN <<-1, -1, -1, -1, 3, 5, 8>> ELSE <<-1, -1, -1, -1, 0, 2, 5>>)],
       maxit |-> Pick(i, 13, IF rest THEN <<3, 8, 200, 200>> ELSE <<0, 1, 2, 5, 20, 200, 200>>),
       tmo |-> Pick(i, 14, IF rest THEN <<-1, -1, -1, 40>> ELSE <<-1, -1, 0, 14, 40>>),
       tc |-> tc, te |-> Pick(i, 15, <<0, 0, 1>>), feas |-> Draw(i, 16, 10) < 3, full |-> Draw(i, 17, 10) < 8, ident |-> ident, diag |-> nc > 0 /\ Draw(i, 21, 3) = 0,
       df |-> IF ident THEN 16 ELSE Pick(i, 18, <<16, 8, 1>>),
       de |-> [k \in 1..me |-> IF ident THEN 4 ELSE Pick(i, 8200 + k, <<4, 1>>)],
       di |-> [k \in 1..mi |-> IF ident THEN 4 ELSE Pick(i, 8300 + k, <<4, 1>>)]]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
WellFormed == v.me <= v.n + 1 /\ \A k \in DOMAIN v.faults : v.faults[k].nth >= 0
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
