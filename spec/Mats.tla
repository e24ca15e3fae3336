-------------------------------- MODULE Mats --------------------------------
(* Matrices of expression handles, views of them, their algebra, and the constraints made by comparing them.
   A matrix is a shape and a row-major sequence of node names; a view is a matrix register and two index
   sequences; a view of a view composes the sequences. Reading goes through the index sequences; writing
   replaces exactly the named cells; the right-hand side of every (compound) assignment is read before
   anything is written. A constraint set is the sequence of its normalised left sides.
   Node values live in Z_p (exact for the dyadic rationals that occur), the magnitude bound keeps doubles exact. *)
EXTENDS Rand, PySlice, FiniteSets, TLC, Json
CONSTANTS LO, HI, STEPS, NM, NV, NC, MODE
VARIABLES s

p == 46337
Md(a) == ((a % p) + p) % p
Mul(a, b) == (a * b) % p
Inv2 == 23169
InvOf(v) == CASE v = 1 -> 1 [] v = p - 1 -> p - 1 [] v = 2 -> Inv2 [] v = p - 2 -> p - Inv2
              [] v = 4 -> Mul(Inv2, Inv2) [] v = p - 4 -> p - Mul(Inv2, Inv2)
Mx(a, b) == IF a > b THEN a ELSE b
Sum(q) == LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE q[k] + S(k - 1) IN S(Len(q))
RECURSIVE MaxOf(_)
MaxOf(q) == IF q = << >> THEN 0 ELSE Mx(Head(q), MaxOf(Tail(q)))

-----------------------------------------------------------------------------
(* nodes: <<"x", leaf>>, <<"c", value>>, <<"add"|"sub"|"mul"|"div", a, b>>, <<"neg", a>>, <<"dot", as, bs>> *)
NodeVal(nd, V, lv) ==
  CASE nd[1] = "x" -> Md(lv[nd[2]])
    [] nd[1] = "c" -> Md(nd[2])
    [] nd[1] = "add" -> (V[nd[2]] + V[nd[3]]) % p
    [] nd[1] = "sub" -> Md(V[nd[2]] - V[nd[3]])
    [] nd[1] = "mul" -> Mul(V[nd[2]], V[nd[3]])
    [] nd[1] = "div" -> Mul(V[nd[2]], InvOf(V[nd[3]]))
    [] nd[1] = "neg" -> Md(-V[nd[2]])
    [] nd[1] = "dot" -> Sum([k \in 1..Len(nd[2]) |-> Mul(V[nd[2][k]], V[nd[3][k]])]) % p
(* bits above and below the binary point *)
Bits(nd, B) ==
  CASE nd[1] \in {"x", "c"} -> [m |-> 3, f |-> 0]
    [] nd[1] \in {"add", "sub"} -> [m |-> Mx(B[nd[2]].m, B[nd[3]].m) + 1, f |-> Mx(B[nd[2]].f, B[nd[3]].f)]
    [] nd[1] = "mul" -> [m |-> B[nd[2]].m + B[nd[3]].m, f |-> B[nd[2]].f + B[nd[3]].f]
    [] nd[1] = "div" -> [m |-> B[nd[2]].m, f |-> B[nd[2]].f + 2]
    [] nd[1] = "neg" -> B[nd[2]]
    [] nd[1] = "dot" -> [m |-> 3 + MaxOf([k \in 1..Len(nd[2]) |-> B[nd[2][k]].m + B[nd[3][k]].m]),
                         f |-> MaxOf([k \in 1..Len(nd[2]) |-> B[nd[2][k]].f + B[nd[3][k]].f])]
MAXN == 170
MAXB == 50
AddN(st, nd) == [st EXCEPT !.P = Append(@, nd), !.V = Append(@, NodeVal(nd, st.V, st.lv)), !.B = Append(@, Bits(nd, st.B)),
                           !.bad = @ \/ (LET b == Bits(nd, st.B) IN b.m + b.f > MAXB)]
RECURSIVE AddAll(_, _)
AddAll(st, nds) == IF nds = << >> THEN st ELSE AddAll(AddN(st, Head(nds)), Tail(nds))
RECURSIVE Reval(_, _, _)
Reval(P, V, lv) == IF Len(V) = Len(P) THEN V ELSE Reval(P, Append(V, NodeVal(P[Len(V) + 1], V, lv)), lv)
(* adds the nodes and returns the state with the field ids = their names *)
Ids(st, nds) == [st |-> AddAll(st, nds), n |-> [k \in 1..Len(nds) |-> Len(st.P) + k]]

-----------------------------------------------------------------------------
(* operands: <<"M",i>>, <<"V",k>>, <<"E",r,c,vals>> numeric matrix, <<"D",num>> number, <<"C",src,r,c>> a cell as a scalar *)
IsMat(o) == o[1] \in {"M", "V", "E"}
Slp(o) == o[1] \in {"M", "V", "C"}
Rows(st, o) == CASE o[1] = "M" -> st.Mt[o[2]].r [] o[1] = "V" -> Len(st.Vw[o[2]].rs) [] o[1] = "E" -> o[2] [] OTHER -> 1
Cols(st, o) == CASE o[1] = "M" -> st.Mt[o[2]].c [] o[1] = "V" -> Len(st.Vw[o[2]].cs) [] o[1] = "E" -> o[3] [] OTHER -> 1
Alive(st, o) == CASE o[1] = "V" -> st.Vw[o[2]].m # 0 [] o[1] = "C" -> (IF o[2][1] = "V" THEN st.Vw[o[2][2]].m # 0 ELSE TRUE)
                    /\ o[3] < Rows(st, o[2]) /\ o[4] < Cols(st, o[2]) [] OTHER -> TRUE
(* the matrix cell (1-based position in storage) named by element r,c (0-based) of a matrix or view *)
MatOf(st, t) == IF t[1] = "M" THEN t[2] ELSE st.Vw[t[2]].m
Pos(st, t, r, c) == IF t[1] = "M" THEN r * st.Mt[t[2]].c + c + 1
                    ELSE LET v == st.Vw[t[2]] IN v.rs[r + 1] * st.Mt[v.m].c + v.cs[c + 1] + 1
Cell(st, t, r, c) == st.Mt[MatOf(st, t)].e[Pos(st, t, r, c)]
RC(k, C) == <<(k - 1) \div C, (k - 1) % C>>
Cells(st, t) == [k \in 1..(Rows(st, t) * Cols(st, t)) |-> LET q == RC(k, Cols(st, t)) IN Cell(st, t, q[1], q[2])]
(* resolve an operand to node names *)
Res(st, o) == CASE o[1] \in {"M", "V"} -> [st |-> st, n |-> Cells(st, o)]
                [] o[1] = "E" -> Ids(st, [k \in 1..Len(o[4]) |-> <<"c", o[4][k]>>])
                [] o[1] = "D" -> Ids(st, <<<<"c", o[2]>>>>)
                [] o[1] = "C" -> [st |-> st, n |-> <<Cell(st, o[2], o[3], o[4])>>]
(* write node names into the cells of t *)
Write(st, t, n) == LET C == Cols(st, t)  m == MatOf(st, t)  R == Rows(st, t)
                       where == [k \in 1..(R * C) |-> Pos(st, t, (k - 1) \div C, (k - 1) % C)] IN
  [st EXCEPT !.Mt[m].e = [q \in DOMAIN @ |-> LET W == {k \in 1..(R * C) : where[k] = q} IN IF W = {} THEN @[q] ELSE n[CHOOSE k \in W : TRUE]]]
(* rebinding a whole matrix register: views of it survive only if the shape does *)
Rebind(st, i, r, c, n) == [st EXCEPT !.Mt[i] = [r |-> r, c |-> c, e |-> n],
     !.Vw = [k \in DOMAIN @ |-> IF @[k].m = i /\ (st.Mt[i].r # r \/ st.Mt[i].c # c) THEN [m |-> 0, rs |-> << >>, cs |-> << >>] ELSE @[k]]]

EW(op, a, b) == [k \in 1..Len(a) |-> <<op, a[k], b[k]>>]
Rep(x, n) == [k \in 1..n |-> x]
(* matrix product nodes: row i of a with column j of b *)
MM(a, b, R, K, C) == [q \in 1..(R * C) |-> LET i == (q - 1) \div C  j == (q - 1) % C IN
                        <<"dot", [k \in 1..K |-> a[i * K + k]], [k \in 1..K |-> b[(k - 1) * C + j + 1]]>>]

-----------------------------------------------------------------------------
(* selections: kind and parameters, on R x C, giving index sequences *)
Rng(a, n) == [k \in 1..n |-> a + k - 1]
SelOK(sel, R, C) ==
  CASE sel[1] = "blk" -> sel[2] <= R /\ sel[3] <= C /\ sel[4] <= R - sel[2] /\ sel[5] <= C - sel[3]
    [] sel[1] = "row" -> sel[2] < R
    [] sel[1] = "col" -> sel[2] < C
    [] sel[1] = "seg" -> C = 1 /\ sel[2] < R /\ sel[3] <= R - sel[2]
    [] sel[1] = "sl" -> TRUE
Sel(sel, R, C) ==
  CASE sel[1] = "blk" -> [r |-> Rng(sel[2], sel[4]), c |-> Rng(sel[3], sel[5])]
    [] sel[1] = "row" -> [r |-> <<sel[2]>>, c |-> Rng(0, C)]
    [] sel[1] = "col" -> [r |-> Rng(0, R), c |-> <<sel[2]>>]
    [] sel[1] = "seg" -> [r |-> Rng(sel[2], sel[3]), c |-> <<0>>]
    [] sel[1] = "sl" -> [r |-> Visits(sel[2], sel[3], StepOf(sel[4]), R), c |-> Visits(sel[5], sel[6], StepOf(sel[7]), C)]
Compose(outer, inner) == [k \in 1..Len(inner) |-> outer[inner[k] + 1]]
RIdx(st, t) == IF t[1] = "M" THEN Rng(0, st.Mt[t[2]].r) ELSE st.Vw[t[2]].rs
CIdx(st, t) == IF t[1] = "M" THEN Rng(0, st.Mt[t[2]].c) ELSE st.Vw[t[2]].cs
ViewOf(st, t, sel) == LET q == Sel(sel, Rows(st, t), Cols(st, t)) IN
                      [m |-> MatOf(st, t), rs |-> Compose(RIdx(st, t), q.r), cs |-> Compose(CIdx(st, t), q.c)]

-----------------------------------------------------------------------------
LeafAll(st, t) == \A k \in 1..Len(Cells(st, t)) : st.P[Cells(st, t)[k]][1] = "x"
(* dividing stays exact only by 1, 2, 4 up to sign: leaves and constants from that palette *)
DivOK(st, o) == IF o[1] = "D" THEN o[2] \in {1, -1, 2, -2, 4, -4}
                ELSE st.P[Cell(st, o[2], o[3], o[4])][1] = "x"
LVals == <<1, -1, 2, -2, 4, -4>>
CVals == <<0, 1, -1, 2, -2, 3, -3, 5>>

Log(st, c, e) == [st EXCEPT !.log = Append(@, <<c, e>>)]
Vals(st, n) == [k \in 1..Len(n) |-> st.V[n[k]]]
Dump(st, t) == <<Rows(st, t), Cols(st, t)>> \o Vals(st, Cells(st, t))
Small(st, o) == Alive(st, o) /\ Rows(st, o) * Cols(st, o) <= 16
Conf(st, a, b) == Rows(st, a) = Rows(st, b) /\ Cols(st, a) = Cols(st, b)
SetLeaves(st, n, vals) ==   \* row-major, the last write wins
  LET Lf == [k \in 1..Len(n) |-> st.P[n[k]][2]]
      lv2 == [q \in DOMAIN st.lv |-> LET W == {k \in 1..Len(n) : Lf[k] = q} IN
                 IF W = {} THEN st.lv[q] ELSE vals[CHOOSE k \in W : \A l \in W : l <= k]] IN
  [st EXCEPT !.lv = lv2, !.V = Reval(st.P, << >>, lv2)]
ConNodes(rel, a, b) == IF rel \in {"<", "<="} THEN EW("sub", b, a) ELSE EW("sub", a, b)
Wide(o, n, k) == IF IsMat(o) THEN n ELSE Rep(n[1], k)
NCon(st, a, b) == IF IsMat(a) THEN Rows(st, a) * Cols(st, a) ELSE IF IsMat(b) THEN Rows(st, b) * Cols(st, b) ELSE 1
RelOK(st, a, b) == Alive(st, a) /\ Alive(st, b) /\ (Slp(a) \/ Slp(b)) /\ (IsMat(a) /\ IsMat(b) => Conf(st, a, b))
MkCon(st, rel, a, b) == LET x == Res(st, a)  y == Res(x.st, b)  k == NCon(st, a, b) IN
                        Ids(y.st, ConNodes(rel, Wide(a, x.n, k), Wide(b, y.n, k)))
Kind(rel) == IF rel = "==" THEN "eq" ELSE "ge"
(* sign of a constraint value: values are small dyadics, so order is decided on exact integers scaled by 2^f *)

Enabled(st, a) ==
  LET n == a[1] IN
  CASE n = "leaf" -> Len(st.lv) + a[3] * a[4] <= 40
    [] n = "con" -> TRUE
    [] n = "span" -> a[3] * a[4] = Rows(st, a[5]) * Cols(st, a[5]) /\ a[3] * a[4] > 0
    [] n = "mcopy" -> Small(st, a[3]) /\ Rows(st, a[3]) > 0 /\ Cols(st, a[3]) > 0
    [] n \in {"view", "peek"} -> Alive(st, a[3]) /\ SelOK(a[4], Rows(st, a[3]), Cols(st, a[3]))
              /\ (n = "peek" => LET q == Sel(a[4], Rows(st, a[3]), Cols(st, a[3])) IN SelOK(a[5], Len(q.r), Len(q.c)))
    [] n = "el" -> Alive(st, a[2]) /\ a[3] < Rows(st, a[2]) /\ a[4] < Cols(st, a[2]) /\ Alive(st, a[5])
    [] n = "asg" -> Alive(st, a[2]) /\ Alive(st, a[3]) /\ Conf(st, a[2], a[3])
    [] n = "asgx" -> Alive(st, a[2]) /\ Alive(st, a[3]) /\ Alive(st, a[4]) /\ Conf(st, a[2], a[3]) /\ Conf(st, a[2], a[4])
    [] n = "comp" -> Alive(st, a[2]) /\ Alive(st, a[4]) /\
          (IF a[3] = "mul" THEN Cols(st, a[2]) = Rows(st, a[4]) /\ Rows(st, a[4]) = Cols(st, a[4]) ELSE Conf(st, a[2], a[4]))
    [] n = "comps" -> Alive(st, a[2]) /\ Alive(st, a[4]) /\ (a[3] = "div" => DivOK(st, a[4]))
                      /\ (a[3] \in {"add", "sub"} => Rows(st, a[2]) = 1 /\ Cols(st, a[2]) = 1)
    [] n = "bin" -> Alive(st, a[4]) /\ Alive(st, a[5]) /\ (Slp(a[4]) \/ Slp(a[5]))
          /\ (IF a[3] = "mul" THEN Cols(st, a[4]) = Rows(st, a[5]) /\ Rows(st, a[4]) * Cols(st, a[5]) <= 16 ELSE Conf(st, a[4], a[5]))
          /\ (a[3] = "red" => a[4][1] = "M" /\ a[5][1] = "M") /\ Rows(st, a[4]) > 0 /\ Cols(st, a[5]) > 0 /\ Cols(st, a[4]) > 0
    [] n = "bins" -> Small(st, a[4]) /\ Alive(st, a[5]) /\ (a[3] = "div" => DivOK(st, a[5])) /\ Rows(st, a[4]) > 0 /\ Cols(st, a[4]) > 0
    [] n = "un" -> Small(st, a[4]) /\ Rows(st, a[4]) > 0 /\ Cols(st, a[4]) > 0
    [] n = "blk" -> LET R == a[3]  C == a[4]  q == a[5] IN
          /\ \A k \in 1..Len(q) : Alive(st, q[k]) /\ Rows(st, q[k]) > 0 /\ Cols(st, q[k]) > 0
          /\ \A i \in 0..(R - 1), j \in 0..(C - 1) : Rows(st, q[i * C + j + 1]) = Rows(st, q[i * C + 1])
          /\ (\A i \in 0..(R - 1) : Sum([j \in 1..C |-> Cols(st, q[i * C + j])]) = Sum([j \in 1..C |-> Cols(st, q[j])]))
          /\ Sum([i \in 1..R |-> Rows(st, q[(i - 1) * C + 1])]) * Sum([j \in 1..C |-> Cols(st, q[j])]) <= 16
    [] n = "set" -> Alive(st, a[2]) /\ LeafAll(st, a[2])
    [] n = "rel" -> RelOK(st, a[4], a[5])
    [] n = "bnd" -> RelOK(st, a[3], a[4]) /\ RelOK(st, a[4], a[5]) /\ Slp(a[4])
    [] n = "cat" -> \A k \in 1..Len(a[4]) : st.Cn[a[4][k]].k = a[3]
    [] n = "ask" -> st.Cn[a[2]].k # ""
    [] n = "dump" -> Alive(st, a[2])

BlkCells(st, R, C, q) ==   \* row-major cells of the assembled matrix
  LET W == Sum([j \in 1..C |-> Cols(st, q[j])])
      H == Sum([i \in 1..R |-> Rows(st, q[(i - 1) * C + 1])])
      RowStart(i) == Sum([k \in 1..(i - 1) |-> Rows(st, q[(k - 1) * C + 1])])
      ColStart(i, j) == Sum([k \in 1..(j - 1) |-> Cols(st, q[(i - 1) * C + k])]) IN
  [r |-> H, c |-> W, n |-> [z \in 1..(H * W) |->
     LET y == (z - 1) \div W  x == (z - 1) % W
         i == CHOOSE i \in 1..R : RowStart(i) <= y /\ y < RowStart(i) + Rows(st, q[(i - 1) * C + 1])
         j == CHOOSE j \in 1..C : ColStart(i, j) <= x /\ x < ColStart(i, j) + Cols(st, q[(i - 1) * C + j])
     IN Cell(st, q[(i - 1) * C + j], y - RowStart(i), x - ColStart(i, j))]]

Apply(st, a) ==
  LET n == a[1] IN
  CASE n = "leaf" -> LET k == a[3] * a[4]
                         t == [st EXCEPT !.lv = @ \o a[5]]
                         q == Ids(t, [j \in 1..k |-> <<"x", Len(st.lv) + j>>]) IN
                     Log(Rebind(q.st, a[2], a[3], a[4], q.n), a, << >>)
    [] n = "con" -> LET R == a[4]  C == a[5]
                        q == Ids(st, [j \in 1..(R * C) |-> <<"c", a[6][j]>>]) IN
                    Log(Rebind(q.st, a[2], R, C, q.n), a, << >>)
    [] n = "span" -> Log(Rebind(st, a[2], a[3], a[4], Cells(st, a[5])), a, << >>)
    [] n = "mcopy" -> Log(Rebind(st, a[2], Rows(st, a[3]), Cols(st, a[3]), Cells(st, a[3])), a, << >>)
    [] n = "view" -> Log([st EXCEPT !.Vw[a[2]] = ViewOf(st, a[3], a[4])], a, << >>)
    [] n = "peek" -> LET v1 == [st EXCEPT !.Vw[1] = ViewOf(st, a[3], a[4])]
                         v2 == [v1 EXCEPT !.Vw[1] = ViewOf(v1, <<"V", 1>>, a[5])] IN
                     Log(st, a, Dump(v2, <<"V", 1>>))
    [] n = "el" -> LET x == Res(st, a[5]) IN
                   Log([x.st EXCEPT !.Mt[MatOf(st, a[2])].e[Pos(st, a[2], a[3], a[4])] = x.n[1]], a, << >>)
    [] n = "asg" -> LET x == Res(st, a[3]) IN Log(Write(x.st, a[2], x.n), a, << >>)
    [] n = "asgx" -> LET q == Ids(st, EW("add", Cells(st, a[3]), Cells(st, a[4]))) IN Log(Write(q.st, a[2], q.n), a, << >>)
    [] n = "comp" -> LET x == Res(st, a[4])  me == Cells(st, a[2])  K == Cols(st, a[2])
                         q == Ids(x.st, IF a[3] = "mul" THEN MM(me, x.n, Rows(st, a[2]), K, K) ELSE EW(a[3], me, x.n)) IN
                     Log(Write(q.st, a[2], q.n), a, << >>)
    [] n = "comps" -> LET x == Res(st, a[4])  me == Cells(st, a[2])
                          q == Ids(x.st, EW(a[3], me, Rep(x.n[1], Len(me)))) IN
                      Log(Write(q.st, a[2], q.n), a, << >>)
    [] n = "bin" -> LET x == Res(st, a[4])  y == Res(x.st, a[5])
                        R == Rows(st, a[4])  C == Cols(st, a[5])
                        e == IF a[3] = "red" THEN Ids(y.st, EW("mul", x.n, y.n)) ELSE [st |-> y.st, n |-> << >>]
                        q == Ids(e.st, IF a[3] = "mul" THEN MM(x.n, y.n, R, Cols(st, a[4]), C)
                                       ELSE IF a[3] = "red" THEN EW("sub", e.n, x.n) ELSE EW(a[3], x.n, y.n)) IN
                    Log(Rebind(q.st, a[2], R, C, q.n), a, << >>)
    [] n = "bins" -> LET x == Res(st, a[4])  y == Res(x.st, a[5])
                         q == Ids(y.st, EW(a[3], x.n, Rep(y.n[1], Len(x.n)))) IN
                     Log(Rebind(q.st, a[2], Rows(st, a[4]), Cols(st, a[4]), q.n), a, << >>)
    [] n = "un" -> LET x == Res(st, a[4])  R == Rows(st, a[4])  C == Cols(st, a[4]) IN
                   IF a[3] = "T" THEN Log(Rebind(st, a[2], C, R, [k \in 1..(R * C) |-> x.n[((k - 1) % R) * C + ((k - 1) \div R) + 1]]), a, << >>)
                   ELSE LET q == Ids(st, IF a[3] = "neg" THEN [k \in 1..(R * C) |-> <<"neg", x.n[k]>>] ELSE EW("mul", x.n, x.n)) IN
                        Log(Rebind(q.st, a[2], R, C, q.n), a, << >>)
    [] n = "blk" -> LET b == BlkCells(st, a[3], a[4], a[5]) IN Log(Rebind(st, a[2], b.r, b.c, b.n), a, << >>)
    [] n = "set" -> Log(SetLeaves(st, Cells(st, a[2]), a[3]), a, << >>)
    [] n = "rel" -> LET q == MkCon(st, a[3], a[4], a[5]) IN Log([q.st EXCEPT !.Cn[a[2]] = [k |-> Kind(a[3]), e |-> q.n]], a, << >>)
    [] n = "bnd" -> LET q == MkCon(st, "<=", a[3], a[4])  z == MkCon(q.st, "<=", a[4], a[5]) IN
                    Log([z.st EXCEPT !.Cn[a[2]] = [k |-> "ge", e |-> q.n \o z.n]], a, << >>)
    [] n = "cat" -> LET RECURSIVE J(_) J(k) == IF k = 0 THEN << >> ELSE J(k - 1) \o st.Cn[a[4][k]].e IN
                    Log([st EXCEPT !.Cn[a[2]] = [k |-> a[3], e |-> J(Len(a[4]))]], a, << >>)
    [] n = "ask" -> Log(st, a, Vals(st, st.Cn[a[2]].e))
    [] n = "dump" -> Log(st, a, Dump(st, a[2]))

-----------------------------------------------------------------------------
(* random programs *)
NoView == [m |-> 0, rs |-> << >>, cs |-> << >>]
Start(m) == LET lv == [k \in 1..9 |-> Pick(m, 500 + k, LVals)] IN
  [m |-> m, j |-> 0, P |-> [k \in 1..9 |-> <<"x", k>>], V |-> [k \in 1..9 |-> Md(lv[k])], B |-> [k \in 1..9 |-> [m |-> 3, f |-> 0]],
   lv |-> lv, bad |-> FALSE, Mt |-> [i \in 1..NM |-> IF i = 1 THEN [r |-> 3, c |-> 3, e |-> [k \in 1..9 |-> k]] ELSE [r |-> 1, c |-> 1, e |-> <<((i * 4) % 9) + 1>>]],
   Vw |-> [k \in 1..NV |-> NoView], Cn |-> [k \in 1..NC |-> [k |-> "", e |-> << >>]], log |-> << >>]

Dims == <<1, 2, 2, 3, 3, 4>>
RTarget(st, m, j) ==   \* a matrix or a live view
  LET lv == {k \in 1..NV : st.Vw[k].m # 0}  r == Draw(m, j, 5) IN
  IF r < 2 \/ lv = {} THEN <<"M", Draw(m, j + 1, NM) + 1>>
  ELSE LET k == Draw(m, j + 1, NV) + 1 IN <<"V", IF k \in lv THEN k ELSE CHOOSE q \in lv : TRUE>>
RVals(m, j, n, pal) == [k \in 1..n |-> Pick(m, j * 31 + k, pal)]
REigen(m, j, R, C) == <<"E", R, C, RVals(m, j, R * C, CVals)>>
RCell(st, m, j) == LET t == RTarget(st, m, j)  R == Rows(st, t)  C == Cols(st, t) IN
                   <<"C", t, IF R = 0 THEN 0 ELSE Draw(m, j + 2, R), IF C = 0 THEN 0 ELSE Draw(m, j + 3, C)>>
RScalar(st, m, j, pal) == IF Draw(m, j + 4, 2) = 0 THEN <<"D", Pick(m, j + 5, pal)>> ELSE RCell(st, m, j)
RMatLike(st, m, j, R, C) == IF Draw(m, j + 6, 3) = 0 THEN REigen(m, j, R, C) ELSE RTarget(st, m, j)
RBound(m, j, n) == LET r == Draw(m, j, 8) IN IF r < 3 THEN N ELSE IF r = 3 THEN 900 ELSE IF r = 4 THEN -900 ELSE Draw(m, j + 1, 2 * n + 3) - n - 1
RSel(m, j, R, C) ==
  LET k == Draw(m, j, 9) IN
  CASE k = 0 -> (LET a == Draw(m, j + 1, R + 1)  b == Draw(m, j + 2, C + 1) IN <<"blk", a, b, Draw(m, j + 3, R - a + 1), Draw(m, j + 4, C - b + 1)>>)
    [] k = 1 -> <<"row", Draw(m, j + 1, R + 1)>>
    [] k = 2 -> <<"col", Draw(m, j + 1, C + 1)>>
    [] k = 3 -> <<"seg", Draw(m, j + 1, R + 1), Draw(m, j + 2, R + 1)>>
    [] OTHER -> <<"sl", RBound(m, j + 1, R), RBound(m, j + 3, R), Pick(m, j + 5, <<N, N, 1, -1, -1, 2, -2, 3>>),
                  RBound(m, j + 6, C), RBound(m, j + 8, C), Pick(m, j + 10, <<N, N, 1, -1, -1, 2, -2, 3>>)>>
Rels == <<"==", "<", "<=", ">", ">=">>
ConVals(m, j, form, R, C) ==
  CASE form = "identity" -> [k \in 1..(R * C) |-> IF (k - 1) \div C = (k - 1) % C THEN 1 ELSE 0]
    [] form = "zero" -> Rep(0, R * C) [] form = "one" -> Rep(1, R * C) [] form = "constant" -> Rep(Pick(m, j, CVals), R * C)
    [] form = "diag" -> (LET d == RVals(m, j, R, CVals) IN [k \in 1..(R * C) |-> IF (k - 1) \div C = (k - 1) % C THEN d[((k - 1) % C) + 1] ELSE 0])
    [] OTHER -> RVals(m, j, R * C, CVals)
Range(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
Menu == CASE MODE = "all" -> Range(0, 59)
          [] MODE = "view" -> Range(0, 37) \o Range(7, 29) \o Range(45, 49) \o <<58, 59>>
          [] MODE = "alg" -> Range(0, 10) \o Range(28, 49) \o Range(31, 46) \o <<59>>
          [] MODE = "rel" -> Range(0, 16) \o Range(23, 29) \o Range(47, 59) \o Range(50, 57)
RAction(st) ==
  LET m == st.m  j == 41 * st.j + 7  r == Pick(m, j, Menu)
      i == Draw(m, j + 1, NM) + 1  k == Draw(m, j + 2, NV) + 1  q == Draw(m, j + 3, NC) + 1
      R == Pick(m, j + 4, Dims)  C == Pick(m, j + 5, Dims)
      t == RTarget(st, m, j + 6)  u == RTarget(st, m, j + 8)  TR == Rows(st, t)  TC == Cols(st, t)
      form == Pick(m, j + 10, <<"vv", "eigen", "vV", "identity", "zero", "one", "constant", "diag", "lit">>)
      sq == form \in {"identity", "diag"} IN
  CASE r \in 0..3 -> <<"leaf", i, R, C, RVals(m, j + 11, R * C, LVals)>>
    [] r = 4 -> (LET C2 == IF sq THEN R ELSE C IN <<"con", i, form, R, C2, ConVals(m, j + 11, form, R, C2)>>)
    [] r = 5 -> <<"span", i, IF Draw(m, j + 11, 2) = 0 THEN TR * TC ELSE TC, IF Draw(m, j + 11, 2) = 0 THEN 1 ELSE TR, t>>
    [] r = 6 -> <<"mcopy", i, t>>
    [] r \in 7..19 -> <<"view", k, t, RSel(m, j + 11, TR, TC)>>
    [] r \in 20..22 -> <<"peek", 0, t, RSel(m, j + 11, TR, TC), RSel(m, j + 23, 3, 3)>>
    [] r \in 23..25 -> (LET x == IF Draw(m, j + 11, 2) = 0 THEN <<"D", Pick(m, j + 12, CVals)>> ELSE RCell(st, m, j + 13) IN
                        <<"el", t, IF TR = 0 THEN 0 ELSE Draw(m, j + 17, TR), IF TC = 0 THEN 0 ELSE Draw(m, j + 18, TC), x>>)
    [] r \in 26..29 -> <<"asg", t, RMatLike(st, m, j + 11, TR, TC)>>
    [] r = 30 -> <<"asgx", t, u, RTarget(st, m, j + 11)>>
    [] r \in 31..34 -> <<"comp", t, Pick(m, j + 11, <<"mul", "add", "sub">>), RMatLike(st, m, j + 12, TC, TC)>>
    [] r \in 35..37 -> (LET op == Pick(m, j + 11, <<"mul", "div", "mul", "div", "add", "sub">>) IN
                        <<"comps", t, op, RScalar(st, m, j + 12, IF op = "div" THEN LVals ELSE CVals)>>)
    [] r \in 38..41 -> (LET op == Pick(m, j + 11, <<"mul", "add", "sub", "mul", "red">>)
                            e == REigen(m, j + 12, IF op = "mul" THEN R ELSE TR, IF op = "mul" THEN TR ELSE TC)
                            f == REigen(m, j + 12, IF op = "mul" THEN TC ELSE TR, IF op = "mul" THEN C ELSE TC)
                            w == Draw(m, j + 13, 4) IN
                        IF w = 0 THEN <<"bin", i, op, e, t>> ELSE IF w = 1 THEN <<"bin", i, op, t, f>> ELSE <<"bin", i, op, t, u>>)
    [] r \in 42..43 -> (LET op == Pick(m, j + 11, <<"mul", "div">>) IN <<"bins", i, op, t, RScalar(st, m, j + 12, IF op = "div" THEN LVals ELSE CVals), Draw(m, j + 19, 2)>>)
    [] r \in 44..45 -> <<"un", i, Pick(m, j + 11, <<"T", "neg", "sq">>), t>>
    [] r = 46 -> (LET g == Pick(m, j + 11, <<<<1, 2>>, <<2, 1>>, <<2, 2>>, <<1, 3>>>>) IN
                  <<"blk", i, g[1], g[2], [z \in 1..(g[1] * g[2]) |-> RTarget(st, m, j + 11 + 2 * z)]>>)
    [] r \in 47..49 -> <<"set", t, RVals(m, j + 11, TR * TC, LVals)>>
    [] r \in 50..53 -> (LET w == Draw(m, j + 11, 6)  rel == Pick(m, j + 12, Rels)
                            x == IF w < 3 THEN t ELSE IF w = 3 THEN RScalar(st, m, j + 13, CVals) ELSE RMatLike(st, m, j + 13, TR, TC)
                            y == IF w = 0 THEN RScalar(st, m, j + 20, CVals) ELSE IF w < 3 THEN RMatLike(st, m, j + 20, TR, TC) ELSE IF w = 5 THEN RCell(st, m, j + 20) ELSE t IN
                        <<"rel", q, rel, x, y>>)
    [] r \in 54..55 -> (LET b(jj) == IF Draw(m, jj, 2) = 0 THEN RScalar(st, m, jj + 1, CVals) ELSE RMatLike(st, m, jj + 1, TR, TC) IN
                        IF Draw(m, j + 29, 4) = 0 THEN <<"bnd", q, RScalar(st, m, j + 11, CVals), RCell(st, m, j + 30), RScalar(st, m, j + 20, CVals)>>
                        ELSE <<"bnd", q, b(j + 11), t, b(j + 20)>>)
    [] r = 56 -> (LET kd == st.Cn[q].k  n == Draw(m, j + 11, 4) IN <<"cat", Draw(m, j + 12, NC) + 1, IF kd = "" THEN "eq" ELSE kd, [z \in 1..n |-> IF z = 1 THEN q ELSE Draw(m, j + 12 + z, NC) + 1], Draw(m, j + 20, 2)>>)
    [] r = 57 -> <<"ask", q>>
    [] OTHER -> <<"dump", t>>
(* an action that would leave the exactly representable numbers, or grow too far, is not taken *)
RECURSIVE Retry(_, _)
Retry(st, tries) ==
  LET a == RAction(st) IN
  IF Enabled(st, a) THEN (LET t == Apply(st, a) IN
        IF ~t.bad /\ Len(t.P) <= MAXN THEN [t EXCEPT !.j = st.j + 1]
        ELSE IF tries = 0 THEN [st EXCEPT !.j = st.j + 1] ELSE Retry([st EXCEPT !.m = st.m + 7919], tries - 1))
  ELSE IF tries = 0 THEN [st EXCEPT !.j = st.j + 1] ELSE Retry([st EXCEPT !.m = st.m + 7919], tries - 1)

RECURSIVE AskM(_, _)
AskM(st, i) == IF i > NM THEN st ELSE AskM(Apply(st, <<"dump", <<"M", i>>>>), i + 1)
RECURSIVE AskV(_, _)
AskV(st, k) == IF k > NV THEN st ELSE AskV(IF st.Vw[k].m = 0 THEN st ELSE Apply(st, <<"dump", <<"V", k>>>>), k + 1)
RECURSIVE AskC(_, _)
AskC(st, k) == IF k > NC THEN st ELSE AskC(IF st.Cn[k].k = "" THEN st ELSE Apply(st, <<"ask", k>>), k + 1)
(* change every leaf that some matrix still holds, cell by cell *)
RECURSIVE Bump(_, _, _, _)
Bump(st, i, c, z) == IF i > NM THEN st ELSE IF c > Len(st.Mt[i].e) THEN Bump(st, i + 1, 1, z)
   ELSE LET d == st.Mt[i].e[c]  v == LVals[((st.P[d][2] * 5 + z * 3 + i + c * c) % 6) + 1]
            C == st.Mt[i].c  t == <<"C", <<"M", i>>, (c - 1) \div C, (c - 1) % C>> IN
        Bump(IF st.P[d][1] # "x" THEN st ELSE Log([st EXCEPT !.lv[st.P[d][2]] = v], <<"setc", t, v>>, << >>), i, c + 1, z)
Refresh(st) == [st EXCEPT !.V = Reval(st.P, << >>, st.lv)]
Ask(st) == AskC(AskV(AskM(st, 1), 1), 1)
Close(st) == Ask(Refresh(Bump(Ask(Refresh(Bump(Ask(st), 1, 1, 1))), 1, 1, 2)))

Init == s \in {Start(m) : m \in LO..HI}
Next == s.j < STEPS /\ s' = [Retry(s, 8) EXCEPT !.m = s.m]
Emit == s.j = STEPS => PrintT("@H" \o ToJson([m |-> s.m, v |-> Start(s.m).lv, log |-> Close(s).log,
                          k |-> [q \in 1..NC |-> s.Cn[q].k]]))
(* every view names cells that exist, and no two of its cells coincide *)
ViewsOK == \A k \in 1..NV : LET v == s.Vw[k] IN v.m # 0 =>
             /\ \A i \in 1..Len(v.rs) : v.rs[i] >= 0 /\ v.rs[i] < s.Mt[v.m].r
             /\ \A i \in 1..Len(v.cs) : v.cs[i] >= 0 /\ v.cs[i] < s.Mt[v.m].c
             /\ \A i, l \in 1..Len(v.rs) : i # l => v.rs[i] # v.rs[l]
             /\ \A i, l \in 1..Len(v.cs) : i # l => v.cs[i] # v.cs[l]
ShapesOK == \A i \in 1..NM : Len(s.Mt[i].e) = s.Mt[i].r * s.Mt[i].c
ValuesFresh == s.j = STEPS => s.V = Reval(s.P, << >>, s.lv)
=============================================================================
