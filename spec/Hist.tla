-------------------------------- MODULE Hist --------------------------------
(* Histories of expression handles, variable values and derivative objects.
   A handle names a node; nodes are immutable formulas over variables; only a variable's value changes.
   Rebinding, compound assignment, copying, moving and swapping act on handles alone. A derivative object
   freezes the formulas and variables it was built from. Every answer is the one for the current variable
   values: its value, gradient and Hessian are computed exactly, as jets over the field Z_p. *)
EXTENDS Rand, TLC, Json, FiniteSets
CONSTANTS LO, HI, STEPS, MODE, NH, NO, NX
VARIABLES s

p == 46337
INV2 == 23169
Md(a) == ((a % p) + p) % p
Mul(a, b) == (Md(a) * Md(b)) % p
Add(a, b) == (a + b) % p

-----------------------------------------------------------------------------
(* jets: value, gradient over the NX variables, Hessian; lv = current variable values *)
X == 1..NX
Zero1 == [k \in X |-> 0]
Zero2 == [k \in X |-> Zero1]
JetC(c) == [v |-> Md(c), g |-> Zero1, h |-> Zero2]
JetX(k, val) == [v |-> Md(val), g |-> [j \in X |-> IF j = k THEN 1 ELSE 0], h |-> Zero2]
JAdd(a, b, sg) == [v |-> Md(a.v + sg * b.v), g |-> [k \in X |-> Md(a.g[k] + sg * b.g[k])],
                   h |-> [k \in X |-> [l \in X |-> Md(a.h[k][l] + sg * b.h[k][l])]]]
JScale(c, a) == [v |-> Mul(c, a.v), g |-> [k \in X |-> Mul(c, a.g[k])], h |-> [k \in X |-> [l \in X |-> Mul(c, a.h[k][l])]]]
JMul(a, b) == [v |-> Mul(a.v, b.v),
               g |-> [k \in X |-> Add(Mul(a.v, b.g[k]), Mul(b.v, a.g[k]))],
               h |-> [k \in X |-> [l \in X |-> Add(Add(Mul(a.v, b.h[k][l]), Mul(b.v, a.h[k][l])),
                                                   Add(Mul(a.g[k], b.g[l]), Mul(a.g[l], b.g[k])))]]]
JNode(ins, J, lv) ==
  CASE ins[1] = "x" -> JetX(ins[2], lv[ins[2]])
    [] ins[1] = "c" -> JetC(ins[2])
    [] ins[1] = "add" -> JAdd(J[ins[2]], J[ins[3]], 1)
    [] ins[1] = "sub" -> JAdd(J[ins[2]], J[ins[3]], -1)
    [] ins[1] = "mul" -> JMul(J[ins[2]], J[ins[3]])
    [] ins[1] = "neg" -> JScale(-1, J[ins[2]])
    [] ins[1] = "sq" -> JMul(J[ins[2]], J[ins[2]])
    [] ins[1] = "cube" -> JMul(J[ins[2]], JMul(J[ins[2]], J[ins[2]]))
    [] ins[1] = "half" -> JScale(INV2, J[ins[2]])
    [] ins[1] = "d" -> [v |-> J[ins[2]].g[ins[3]], g |-> J[ins[2]].h[ins[3]], h |-> Zero2]
RECURSIVE Jets(_, _, _, _)
Jets(P, m, J, lv) == IF m > Len(P) THEN J ELSE Jets(P, m + 1, Append(J, JNode(P[m], J, lv)), lv)

(* per node: an upper bound on its magnitude in bits (so that doubles stay exact), the number of derivative orders
   the jet carries, its degree class, and for constants the exact value (for the neutral-element rules) *)
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
Info(ins, I) ==
  LET a == I[ins[2]]  b == I[ins[3]]  op == ins[1] IN
  CASE op = "add" \/ op = "sub" -> [b |-> Mx(a.b, b.b) + 1, o |-> Mn(a.o, b.o), t |-> Mx(a.t, b.t), c |-> IF op = "add" THEN a.c + b.c ELSE a.c - b.c]
    [] op = "mul" -> [b |-> a.b + b.b, o |-> Mn(a.o, b.o), c |-> a.c * b.c,
                      t |-> IF (a.t = 1 /\ a.c = 0) \/ (b.t = 1 /\ b.c = 0) THEN 1
                            ELSE IF a.t = 1 THEN b.t ELSE IF b.t = 1 THEN a.t ELSE IF a.t = 2 /\ b.t = 2 THEN 3 ELSE 4]
    [] op = "neg" -> [a EXCEPT !.c = -a.c]
    [] op = "sq" -> [b |-> 2 * a.b, o |-> a.o, t |-> IF a.t = 1 THEN 1 ELSE IF a.t = 2 THEN 3 ELSE 4, c |-> a.c * a.c]
    [] op = "cube" -> [b |-> 3 * a.b, o |-> a.o, t |-> IF a.t = 1 THEN 1 ELSE 4, c |-> a.c * a.c * a.c]
    [] op = "half" -> [a EXCEPT !.b = a.b + 1, !.c = 0]
    [] op = "d" -> [b |-> a.b + 3, o |-> a.o - 1, t |-> 4, c |-> 0]

RECURSIVE Plain(_, _)
Plain(P, i) == CASE P[i][1] = "d" -> FALSE
                 [] P[i][1] \in {"x", "c"} -> TRUE
                 [] OTHER -> Plain(P, P[i][2]) /\ (P[i][3] = 0 \/ Plain(P, P[i][3]))

-----------------------------------------------------------------------------
(* state: m sample, j steps done, P nodes, I their info, lv variable values, hd handles (0 = moved from),
   ob derivative objects (k = "" : none), log of commands with expected answers *)
LeafInfo == [b |-> 3, o |-> 2, t |-> 2, c |-> 0]
ConstInfo(c) == [b |-> 3, o |-> 2, t |-> 1, c |-> c]
NoObj == [k |-> "", f |-> << >>, w |-> << >>]
Start(m, v) == [m |-> m, j |-> 0, P |-> <<<<"x", 1, 0>>, <<"x", 2, 0>>>>, I |-> <<LeafInfo, LeafInfo>>,
             lv |-> [k \in X |-> IF k <= 2 THEN v[k] ELSE 0], nx |-> 2,
             hd |-> [h \in 1..NH |-> IF h <= 2 THEN h ELSE 1], ob |-> [o \in 1..NO |-> NoObj], log |-> << >>]

H == 1..NH
Live(st) == {h \in H : st.hd[h] # 0}
IsLeaf(st, h) == st.hd[h] # 0 /\ st.P[st.hd[h]][1] = "x"
MAXB == 34
MAXN == 14
NewNode(st, ins) == [st EXCEPT !.P = Append(@, ins),
                               !.I = Append(@, IF ins[1] = "x" THEN LeafInfo ELSE IF ins[1] = "c" THEN ConstInfo(ins[2])
                                               ELSE Info(<<ins[1], ins[2], IF ins[3] = 0 \/ ins[1] = "d" THEN ins[2] ELSE ins[3]>>, st.I))]
Bind(st, h, ins) == LET t == NewNode(st, ins) IN [t EXCEPT !.hd[h] = Len(t.P)]
FitsC(i) == i.t # 1 \/ (i.c < 5000 /\ i.c > -5000)
Fits(st) == st.I[Len(st.I)].b <= MAXB /\ FitsC(st.I[Len(st.I)]) /\ Len(st.P) <= MAXN

Bin == <<"add", "sub", "mul">>
Un == <<"neg", "sq", "cube", "half">>
Vals == <<0, 1, -1, 2, 3, -2, -3>>
CVals == <<0, 1, -1, 2, 3>>

(* an action is <<name, h, x, y, ...>>; Apply gives the next state, or st itself if the action is not enabled *)
Ans(st, i) == Jets(st.P, 1, << >>, st.lv)[i]
Row(J, w, n) == [k \in 1..n |-> J.g[w[k]]]
ObjAnswer(st, o) ==
  LET ob == st.ob[o]  J == Jets(st.P, 1, << >>, st.lv) IN
  IF ob.k \in {"g", "j"} THEN [r \in 1..Len(ob.f) |-> [c \in 1..Len(ob.w) |-> J[ob.f[r]].g[ob.w[c]]]]
  ELSE [r \in 1..Len(ob.w) |-> [c \in 1..Len(ob.w) |-> IF ob.k = "l" /\ c > r THEN 0 ELSE J[ob.f[1]].h[ob.w[r]][ob.w[c]]]]
FullAnswer(st, o) == ObjAnswer([st EXCEPT !.ob[o].k = IF @ = "l" THEN "h" ELSE @], o)

Log(st, c, e) == [st EXCEPT !.log = Append(@, <<c, e>>)]
Enabled(st, a) ==
  LET n == a[1]  L == Live(st) IN
  CASE n = "fresh" -> st.nx < NX /\ Len(st.P) < MAXN
    [] n \in {"const", "kconst"} -> Len(st.P) < MAXN
    [] n = "copy" -> a[3] \in L
    [] n = "move" -> a[3] \in L /\ a[2] # a[3]
    [] n = "swap" -> a[2] \in L /\ a[3] \in L
    [] n = "bin" -> a[4] \in L /\ a[5] \in L /\ Fits(NewNode(st, <<a[3], st.hd[a[4]], st.hd[a[5]]>>))
    [] n = "un" -> a[4] \in L /\ (a[3] = "half" => st.I[st.hd[a[4]]].t # 1) /\ Fits(NewNode(st, <<a[3], st.hd[a[4]], 0>>))
    [] n = "comp" -> a[2] \in L /\ a[4] \in L /\ Fits(NewNode(st, <<a[3], st.hd[a[2]], st.hd[a[4]]>>))
    [] n = "compk" -> a[2] \in L /\ LET t == NewNode(st, <<"c", a[4], 0>>) IN Fits(NewNode(t, <<a[3], st.hd[a[2]], Len(t.P)>>))
    [] n = "halve" -> a[2] \in L /\ st.I[st.hd[a[2]]].t # 1 /\ Fits(NewNode(st, <<"half", st.hd[a[2]], 0>>))
    [] n = "set" -> a[2] \in L /\ IsLeaf(st, a[2])
    [] n \in {"val", "type"} -> a[2] \in L
    [] n = "mk" -> st.ob[a[2]].k = "" /\ (\A r \in 1..Len(a[4]) : a[4][r] \in L /\ st.I[st.hd[a[4][r]]].o >= (IF a[3] \in {"h", "l"} THEN 2 ELSE 1))
                   /\ (\A c \in 1..Len(a[5]) : a[5][c] \in L /\ IsLeaf(st, a[5][c]))
                   /\ (\A c, d \in 1..Len(a[5]) : c # d => st.hd[a[5][c]] # st.hd[a[5][d]])
    [] n \in {"drop", "ev", "sym"} -> st.ob[a[2]].k # ""
    [] n = "grad" -> a[3] \in L /\ a[4] \in L /\ IsLeaf(st, a[4]) /\ st.I[st.hd[a[3]]].o = 2 /\ Len(st.P) < MAXN
                     /\ st.I[st.hd[a[3]]].b + 3 <= MAXB

Apply(st, a) ==
  LET n == a[1] IN
  CASE n = "fresh" -> Log([Bind(st, a[2], <<"x", st.nx + 1, 0>>) EXCEPT !.nx = @ + 1, !.lv[st.nx + 1] = a[3]], a, << >>)
    [] n \in {"const", "kconst"} -> Log(Bind(st, a[2], <<"c", a[3], 0>>), a, << >>)
    [] n = "copy" -> Log([st EXCEPT !.hd[a[2]] = st.hd[a[3]]], a, << >>)
    [] n = "move" -> Log([st EXCEPT !.hd[a[2]] = st.hd[a[3]], !.hd[a[3]] = 0], a, << >>)
    [] n = "swap" -> Log([st EXCEPT !.hd[a[2]] = st.hd[a[3]], !.hd[a[3]] = st.hd[a[2]]], a, << >>)
    [] n = "bin" -> Log(Bind(st, a[2], <<a[3], st.hd[a[4]], st.hd[a[5]]>>), a, << >>)
    [] n = "un" -> Log(Bind(st, a[2], <<a[3], st.hd[a[4]], 0>>), a, << >>)
    [] n = "comp" -> Log(Bind(st, a[2], <<a[3], st.hd[a[2]], st.hd[a[4]]>>), a, << >>)
    [] n = "compk" -> LET t == NewNode(st, <<"c", a[4], 0>>) IN Log(Bind(t, a[2], <<a[3], st.hd[a[2]], Len(t.P)>>), a, << >>)
    [] n = "halve" -> Log(Bind(st, a[2], <<"half", st.hd[a[2]], 0>>), a, << >>)
    [] n = "set" -> Log([st EXCEPT !.lv[st.P[st.hd[a[2]]][2]] = a[3]], a, << >>)
    [] n = "val" -> Log(st, a, <<<<Ans(st, st.hd[a[2]]).v>>>>)
    [] n = "type" -> Log(st, a, <<<<IF Plain(st.P, st.hd[a[2]]) THEN st.I[st.hd[a[2]]].t ELSE 0>>>>)
    [] n = "mk" -> Log([st EXCEPT !.ob[a[2]] = [k |-> a[3], f |-> [r \in 1..Len(a[4]) |-> st.hd[a[4][r]]],
                                                w |-> [c \in 1..Len(a[5]) |-> st.P[st.hd[a[5][c]]][2]]]], a, << >>)
    [] n = "drop" -> Log([st EXCEPT !.ob[a[2]] = NoObj], a, << >>)
    [] n = "ev" -> Log(st, a, ObjAnswer(st, a[2]))
    [] n = "sym" -> Log(st, a, FullAnswer(st, a[2]))
    [] n = "grad" -> Log(Bind(st, a[2], <<"d", st.hd[a[3]], st.P[st.hd[a[4]]][2]>>), a, << >>)

-----------------------------------------------------------------------------
(* random histories: step j of history m draws its action *)
RHandles(m, j, n) == [k \in 1..n |-> Draw(m, j + k, NH) + 1]
RAction(st) ==
  LET m == st.m  j == 23 * st.j + 11  r == Draw(m, j, 40)  h == Draw(m, j + 1, NH) + 1  g == Draw(m, j + 2, NH) + 1
      e == Draw(m, j + 3, NH) + 1  o == Draw(m, j + 4, NO) + 1
      objs == {q \in 1..NO : st.ob[q].k # ""}
      leaves == {q \in H : IsLeaf(st, q)}
      lf == IF leaves = {} THEN h ELSE LET w == CHOOSE f \in [1..Cardinality(leaves) -> leaves] : \A a, b \in 1..Cardinality(leaves) : a < b => f[a] < f[b]
                                     IN w[Draw(m, j + 5, Cardinality(leaves)) + 1]
      lf2 == IF leaves = {} THEN h ELSE LET w == CHOOSE f \in [1..Cardinality(leaves) -> leaves] : \A a, b \in 1..Cardinality(leaves) : a < b => f[a] < f[b]
                                     IN w[Draw(m, j + 6, Cardinality(leaves)) + 1]
  IN CASE r = 0 -> <<"fresh", h, Pick(m, j + 7, Vals)>>
       [] r = 1 -> <<IF Draw(m, j + 8, 2) = 0 THEN "const" ELSE "kconst", h, Pick(m, j + 7, CVals)>>
       [] r = 2 -> <<"copy", h, g>>
       [] r = 3 -> <<"move", h, g>>
       [] r = 4 -> <<"swap", h, g>>
       [] r \in 5..9 -> <<"bin", h, Pick(m, j + 7, Bin), g, e>>
       [] r \in 10..11 -> <<"un", h, Pick(m, j + 7, Un), g>>
       [] r \in 12..14 -> <<"comp", h, Pick(m, j + 7, Bin), g>>
       [] r = 15 -> <<"compk", h, Pick(m, j + 7, Bin), Pick(m, j + 8, CVals)>>
       [] r = 16 -> <<"halve", h>>
       [] r \in 17..21 -> <<"set", lf, Pick(m, j + 7, Vals)>>
       [] r \in 22..24 -> <<"val", h>>
       [] r = 25 -> <<"type", h>>
       [] r \in 26..28 -> (LET k == Pick(m, j + 7, <<"g", "j", "h", "l", "j", "h">>)
                               nf == IF k = "j" THEN 1 + Draw(m, j + 8, 3) ELSE 1
                               nw == 1 + Draw(m, j + 9, 2) IN
                           <<"mk", o, k, [i \in 1..nf |-> Draw(m, j + 10 + i, NH) + 1], IF nw = 1 THEN <<lf>> ELSE <<lf, lf2>>>>)
       [] r = 29 -> <<"drop", o>>
       [] r \in 30..34 -> <<"ev", IF objs = {} THEN o ELSE LET c == Cardinality(objs)
                                     w == CHOOSE f \in [1..c -> objs] : \A a, b \in 1..c : a < b => f[a] < f[b] IN w[Draw(m, j + 15, c) + 1]>>
       [] r \in 35..36 -> <<"sym", o>>
       [] r = 37 -> <<"grad", h, g, lf>>
       [] OTHER -> <<"set", lf2, Pick(m, j + 7, Vals)>>
RECURSIVE Retry(_, _)
Retry(st, tries) ==   \* skip disabled draws by moving the draw counter on
  LET a == RAction(st) IN
  IF Enabled(st, a) THEN [Apply(st, a) EXCEPT !.j = st.j + 1]
  ELSE IF tries = 0 THEN [st EXCEPT !.j = st.j + 1] ELSE Retry([st EXCEPT !.m = st.m + 7919], tries - 1)

(* exhaustive small histories *)
Small(st) ==
  {<<"copy", 2, 1>>, <<"move", 3, 2>>, <<"bin", 3, "mul", 1, 2>>, <<"bin", 3, "add", 3, 2>>, <<"comp", 3, "mul", 3>>, <<"comp", 1, "mul", 2>>,
   <<"comp", 3, "add", 1>>, <<"comp", 2, "sub", 2>>, <<"compk", 3, "mul", 2>>, <<"set", 1, 3>>, <<"set", 2, -2>>, <<"un", 3, "sq", 1>>,
   <<"val", 3>>, <<"val", 1>>, <<"fresh", 3, 2>>, <<"const", 2, 3>>, <<"mk", 1, "g", <<3>>, <<1>>>>, <<"mk", 1, "h", <<3>>, <<1, 2>>>>,
   <<"mk", 2, "j", <<3, 1>>, <<2>>>>, <<"mk", 2, "l", <<3>>, <<2, 1>>>>, <<"ev", 1>>, <<"ev", 2>>, <<"sym", 1>>, <<"grad", 3, 3, 1>>}

(* closing questions: every handle and object, then again after every variable changed *)
RECURSIVE AskH(_, _)
AskH(st, h) == IF h > NH THEN st ELSE AskH(IF st.hd[h] = 0 THEN st ELSE Apply(st, <<"val", h>>), h + 1)
RECURSIVE AskO(_, _)
AskO(st, o) == IF o > NO THEN st ELSE AskO(IF st.ob[o].k = "" THEN st ELSE Apply(Apply(st, <<"ev", o>>), <<"sym", o>>), o + 1)
RECURSIVE Bump(_, _)
Bump(st, h) == IF h > NH THEN st ELSE Bump(IF IsLeaf(st, h) THEN Apply(st, <<"set", h, Vals[((h * 3 + Len(st.P)) % 7) + 1]>>) ELSE st, h + 1)
Close(st) == AskH(AskO(Bump(AskO(AskH(st, 1), 1), 1), 1), 1)

Init == s \in (IF MODE = "rand" THEN {Start(m, [k \in 1..2 |-> Pick(m, k, Vals)]) : m \in LO..HI} ELSE {Start(0, <<2, 3>>)})
Next == /\ s.j < STEPS
        /\ IF MODE = "rand" THEN s' = [Retry(s, 6) EXCEPT !.m = s.m]
           ELSE \E a \in Small(s): Enabled(s, a) /\ s' = [Apply(s, a) EXCEPT !.j = s.j + 1]
Emit == s.j = STEPS => PrintT("@H" \o ToJson([m |-> s.m, init |-> s.log, v |-> IF MODE = "rand" THEN [k \in 1..2 |-> Pick(s.m, k, Vals)] ELSE <<2, 3>>,
                                               log |-> Close(s).log]))
(* Sanity of the oracle: symmetric Hessians, and constants never vary *)
Sane == s.j % 4 = 0 => LET J == Jets(s.P, 1, << >>, s.lv) IN \A i \in 1..Len(J) :
          /\ (s.I[i].o = 2 => \A k, l \in X : J[i].h[k][l] = J[i].h[l][k])
          /\ (s.I[i].t = 1 => J[i].g = Zero1)
          /\ (s.I[i].t = 2 /\ s.I[i].o = 2 => J[i].h = Zero2)
=============================================================================
