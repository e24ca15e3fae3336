-------------------------------- MODULE Bounds --------------------------------
(* Simple bounds. A constraint is "function >= 0" with the function given by its mathematical content (linear
   coefficients, constant, and possibly a nonlinear part or a parameter) and by the way it is written; only the
   content matters. A constraint is a bound iff it is linear with exactly one non-zero coefficient. The whole function may
   be multiplied by 2^e, which changes neither. The constant may carry a part d*eps for an infinitely small eps (handed to
   the code as a small power of two), so values are pairs compared lexicographically: bounds that miss each other by
   next to nothing contradict each other just the same. *)
EXTENDS Rat, Rand, FiniteSets, TLC, Json
CONSTANTS LO, HI
VARIABLE v
COEF == <<1, -1, 2, -2, 4, -4, 1, -1>>
CON  == <<0, 0, 1, -1, 3, -3, 5, -7, 8, -2, 2, 6>>
VAL  == <<0, 0, 1, -1, 5, -3, 100>>
KIND == <<"one", "one", "one", "one", "one", "one", "one", "two", "two", "quad", "const", "sin", "par", "none", "neq", "tie", "tie">>
(* the content of constraint k of sample i over n variables *)
Constraint(i, k, n, prev) ==
  LET o == 50 + 20 * k
      kd == Pick(i, o, KIND)
      a == Draw(i, o + 1, n) + 1
      b == Draw(i, o + 2, n) + 1
      ca == Pick(i, o + 3, COEF)  cb == Pick(i, o + 4, COEF)
      c0 == Pick(i, o + 5, CON)
      zero == [j \in 1..n |-> 0]
      two == a # b /\ kd = "two"
      lin == CASE kd \in {"one", "tie"} -> [zero EXCEPT ![a] = ca]
               [] kd = "two" -> IF two THEN [zero EXCEPT ![a] = ca, ![b] = cb] ELSE [zero EXCEPT ![a] = ca]
               [] kd \in {"quad", "sin", "par", "neq"} -> [zero EXCEPT ![a] = ca]
               [] OTHER -> zero
  IN  [kd |-> kd, w |-> Draw(i, o + 6, 9), e |-> Pick(i, o + 8, <<0, 0, 0, 0, 0, -30, -40, -250, 25, 60>>), lin |-> lin, c |-> IF kd = "tie" /\ prev # << >> THEN 0 - ca * prev[1] ELSE c0, v |-> a, u |-> b, p |-> Pick(i, o + 7, CON), d |-> Pick(i, o + 9, <<0, 0, 0, 1, -1>>)]
(* the function's constant term once the parameter (a variable that is not a decision variable) is fixed *)
ConstOf(s) == IF s.kd = "par" THEN s.c + s.p ELSE s.c
NonZero(s) == {j \in DOMAIN s.lin : s.lin[j] # 0}
Linear(s) == s.kd \notin {"quad", "sin", "neq"}
IsBound(s) == Linear(s) /\ Cardinality(NonZero(s)) = 1
Var(s) == CHOOSE j \in NonZero(s) : TRUE
At(s) == <<R(0 - ConstOf(s), s.lin[Var(s)]), R(0 - s.d, s.lin[Var(s)])>>
PLt(a, b) == RLt(a[1], b[1]) \/ (a[1] = b[1] /\ RLt(a[2], b[2]))
IsLower(s) == s.lin[Var(s)] > 0
RECURSIVE Tight(_, _, _)
(* tightest over a set of values, up = TRUE for the largest *)
Tight(S, up, best) == IF S = {} THEN best
                      ELSE LET x == CHOOSE x \in S : TRUE
                           IN Tight(S \ {x}, up, IF best = << >> THEN x ELSE IF PLt(IF up THEN best ELSE x, IF up THEN x ELSE best) THEN x ELSE best)
Case(i) ==
  LET big == i % 8 = 5                                             \* every eighth sample is large
      n == IF big THEN Draw(i, 1, 9) + 4 ELSE Draw(i, 1, 3) + 1
      m == IF big THEN Draw(i, 2, 19) + 7 ELSE Draw(i, 2, 7)
      val == [j \in 1..n |-> Pick(i, 10 + j, VAL)]
      cs == [k \in 1..m |-> Constraint(i, k, n, IF k = 1 THEN << >> ELSE <<Pick(i, 3, CON)>>)]
      L(j) == {k \in 1..m : IsBound(cs[k]) /\ Var(cs[k]) = j /\ IsLower(cs[k])}
      U(j) == {k \in 1..m : IsBound(cs[k]) /\ Var(cs[k]) = j /\ ~IsLower(cs[k])}
      lo(j) == Tight({At(cs[k]) : k \in L(j)}, TRUE, << >>)
      hi(j) == Tight({At(cs[k]) : k \in U(j)}, FALSE, << >>)
      conf(j) == lo(j) # << >> /\ hi(j) # << >> /\ PLt(hi(j), lo(j))
  IN  [i |-> i, n |-> n, val |-> val, cs |-> cs, cost |-> Draw(i, 4, 5), eq |-> Draw(i, 5, 4) = 0 /\ n > 1,
       \* what the cost and an equality constraint are does not matter
       mask |-> [k \in 1..m |-> IsBound(cs[k])],
       lo |-> [j \in 1..n |-> lo(j)], hi |-> [j \in 1..n |-> hi(j)],
       conf |-> [j \in 1..n |-> {<<k, l>> \in L(j) \X U(j) : PLt(At(cs[l]), At(cs[k]))}],
       bad |-> \E j \in 1..n : conf(j)]
Init == v \in {Case(i) : i \in LO..HI}
Next == UNCHANGED v
(* the bounds describe exactly the points that satisfy the bound constraints: some value of variable j satisfies
   all of them iff its bounds do not contradict each other, and when they do not the bounds themselves do *)
Sat(s, x) == ~PLt(<<RAdd(RMul(RInt(s.lin[Var(s)]), x[1]), RInt(ConstOf(s))), RAdd(RMul(RInt(s.lin[Var(s)]), x[2]), RInt(s.d))>>, <<<<0, 1>>, <<0, 1>>>>)
Bs(j) == {k \in 1..Len(v.cs) : IsBound(v.cs[k]) /\ Var(v.cs[k]) = j}
AllSat(j, x) == \A k \in Bs(j) : Sat(v.cs[k], x)
Ends(j) == ({v.lo[j]} \union {v.hi[j]}) \ {<< >>}
Exact == \A j \in 1..v.n :
           /\ (\A x \in Ends(j) : AllSat(j, x)) \/ v.conf[j] # {}
           /\ \A x \in Ends(j) : v.conf[j] # {} => ~AllSat(j, x)
           /\ v.lo[j] # << >> => ~AllSat(j, <<v.lo[j][1], RSub(v.lo[j][2], <<1, 64>>)>>)
           /\ v.hi[j] # << >> => ~AllSat(j, <<v.hi[j][1], RAdd(v.hi[j][2], <<1, 64>>)>>)
Consistent == v.bad = (\E j \in 1..v.n : v.conf[j] # {})
Emit == PrintT("@V" \o ToJson(v))
===============================================================================
