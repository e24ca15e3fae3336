------------------------------- MODULE PyLife -------------------------------
(* What a Python name keeps alive.  Every Python object is a grid of cells of a     *)
(* base (the variables made by one constructor call).  A name holds a matrix, a     *)
(* view, an element, a list of elements, an iterator, an expression of a cell or a  *)
(* gradient over the cells.  Dropping or rebinding a name disturbs no other name:   *)
(* reading one yields its cells' present values, whatever its origin has become.    *)
(* Programs are drawn; the specification is deterministic and yields their answers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rand
CONSTANTS LO, HI, LEN, NN
VARIABLE prog
None == [kind |-> "none", b |-> 0, R |-> 0, C |-> 0, c |-> <<>>]
Grid(kind, b, R, C, c) == [kind |-> kind, b |-> b, R |-> R, C |-> C, c |-> c]
Viewable(n) == n.kind \in {"mat", "view"}
Free(n) == n.kind = "none"
Cell(n, i, j) == n.c[i * n.C + j + 1]
Hows == <<"row", "col", "slice", "part", "down", "elem", "lin", "T", "list", "iter", "expr", "grad", "row", "col", "part", "elem", "neg">>
(* what `how` with row i and column j of grid n yields *)
Take(n, how, i, j) ==
  CASE how = "row" -> Grid("view", n.b, 1, n.C, [q \in 1..n.C |-> Cell(n, i, q - 1)])
    [] how = "col" -> Grid("view", n.b, n.R, 1, [q \in 1..n.R |-> Cell(n, q - 1, j)])
    [] how = "part" -> Grid("view", n.b, 1, n.C, [q \in 1..n.C |-> Cell(n, i, q - 1)])
    [] how = "down" -> Grid("view", n.b, n.R, 1, [q \in 1..n.R |-> Cell(n, q - 1, j)])
    [] how = "slice" -> Grid("view", n.b, n.R, n.C, n.c)
    [] how = "T" -> Grid("mat", n.b, n.C, n.R, [q \in 1..(n.R * n.C) |-> Cell(n, (q - 1) % n.R, (q - 1) \div n.R)])
    [] how \in {"elem", "lin"} -> Grid("elem", n.b, 1, 1, <<Cell(n, i, j)>>)
    [] how = "list" -> Grid("list", n.b, n.R, n.C, n.c)
    [] how = "iter" -> Grid("iter", n.b, n.R, n.C, n.c)
    [] how = "expr" -> Grid("expr", n.b, 1, 1, <<Cell(n, i, j)>>)
    [] how = "grad" -> Grid("grad", n.b, n.R, n.C, n.c)
    [] how = "neg" -> Grid("neg", n.b, n.R, n.C, n.c)
Read(n, val) == [q \in 1..Len(n.c) |-> LET v == val[n.b][n.c[q]]
                 IN CASE n.kind = "expr" -> v * v + v [] n.kind = "grad" -> 2 * v [] n.kind = "neg" -> 0 - v [] OTHER -> v]
Do(s, a) == [s EXCEPT !.log = Append(@, a)]
Used(s) == {x \in 1..NN : ~Free(s.nm[x])}
Nth(S, k) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = k % Cardinality(S)
ReadOp(s, x) == Do([s EXCEPT !.nm[x] = IF @.kind = "iter" THEN None ELSE @], <<"read", x, Read(s.nm[x], s.val)>>)
Step(i, k, s) ==
  LET D(j, n) == Draw(i, k * 11 + j, n)
      x == D(0, NN) + 1
      op == Pick(i, k * 11 + 1, <<"new", "take", "take", "take", "take", "drop", "drop", "write", "read">>)
      views == {y \in Used(s) : Viewable(s.nm[y])}
      writable == {y \in Used(s) : s.nm[y].kind \in {"mat", "view", "elem"}}
  IN CASE op = "new" \/ views = {} ->
          LET R == D(2, 3) + 1  C == D(3, 2) + 1  b == Len(s.val) + 1
              how == Pick(i, k * 11 + 4, <<"own", "prob", "array", "rows">>)
              v == [q \in 1..(R * C) |-> 100 * b + q]
          IN Do([s EXCEPT !.nm[x] = Grid("mat", b, R, C, [q \in 1..(R * C) |-> q]), !.val = Append(@, v), !.org = Append(@, how)], <<"new", x, how, R, C, v>>)
       [] op = "take" /\ views # {} ->
          LET y == Nth(views, D(2, 5))  n == s.nm[y]  r == D(3, n.R)  c == D(4, n.C)  h0 == Pick(i, k * 11 + 5, Hows)
              \* numbers are constants: nothing is differentiated with respect to them and what is computed from them stays
              how == IF s.org[n.b] = "array" /\ h0 \in {"expr", "grad", "neg"} THEN "list" ELSE h0
          IN Do([s EXCEPT !.nm[x] = Take(n, how, r, c)], <<"take", x, y, how, r, c>>)
       [] op = "drop" /\ views # {} ->
          LET y == Nth(Used(s), D(2, 5)) IN Do([s EXCEPT !.nm[y] = None], <<"drop", y>>)
       [] op = "write" /\ views # {} ->
          LET y == Nth(writable, D(2, 5))  n == s.nm[y]  v == [q \in 1..Len(n.c) |-> 10 * k + q]
          IN Do([s EXCEPT !.val[n.b] = [q \in 1..Len(@) |-> IF \E p \in 1..Len(n.c) : n.c[p] = q THEN v[CHOOSE p \in 1..Len(n.c) : n.c[p] = q] ELSE @[q]]],
                <<"write", y, v>>)
       [] OTHER -> LET y == Nth(Used(s), D(2, 5)) IN ReadOp(s, y)
RECURSIVE Run(_, _, _), Finish(_, _)
Finish(s, x) == IF x > NN THEN s ELSE Finish(IF Free(s.nm[x]) THEN s ELSE ReadOp(s, x), x + 1)
Run(i, k, s) == IF k > LEN THEN Finish(s, 1) ELSE Run(i, k + 1, Step(i, k, s))
S0 == [nm |-> [x \in 1..NN |-> None], val |-> <<>>, org |-> <<>>, log |-> <<>>]
(* the names and their cells stay well formed; dropping changes no other name's answer *)
WellFormed(s) == \A x \in Used(s) : LET n == s.nm[x] IN Len(n.c) = n.R * n.C /\ \A q \in 1..Len(n.c) : n.c[q] \in 1..Len(s.val[n.b])
RECURSIVE Checked(_, _, _)
Checked(i, k, s) ==
  \/ k > LEN
  \/ LET t == TLCEval(Step(i, k, s))  a == t.log[Len(t.log)]
     IN /\ WellFormed(t)
        /\ (a[1] \in {"new", "take", "drop"} => \A x \in Used(t) : (x # a[2] => t.nm[x] = s.nm[x] /\ Read(t.nm[x], t.val) = Read(s.nm[x], s.val)))
        /\ Checked(i, k + 1, t)
Init == prog \in LO..HI
Next == FALSE /\ UNCHANGED prog
Spec == Init /\ [][Next]_prog
Sound == Checked(prog, 1, S0)
Emit == PrintT("@L" \o ToJson([m |-> prog, log |-> Run(prog, 1, S0).log]))
=============================================================================
