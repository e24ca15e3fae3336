------------------------------ MODULE PySlice ------------------------------
(* Python's slice selection as pure definitions. *)
EXTENDS Integers, Sequences
N == 99999   \* an omitted bound
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Lo(s, n) == IF s > 0 THEN 0 ELSE -1
Hi(s, n) == IF s > 0 THEN n ELSE n - 1
Norm(v, s, n) == LET w == IF v < 0 THEN v + n ELSE v IN Max(Lo(s, n), Min(w, Hi(s, n)))
NStart(v, s, n) == IF v = N THEN (IF s > 0 THEN Lo(s, n) ELSE Hi(s, n)) ELSE Norm(v, s, n)
NStop(v, s, n)  == IF v = N THEN (IF s > 0 THEN Hi(s, n) ELSE Lo(s, n)) ELSE Norm(v, s, n)
Abs(x) == IF x < 0 THEN -x ELSE x
StepOf(s) == IF s = N THEN 1 ELSE s

(* the positions visited, by walking (this is the definition) *)
RECURSIVE Walk(_, _, _)
Walk(i, j, s) == IF (s > 0 /\ i >= j) \/ (s < 0 /\ i <= j) THEN <<>>
                 ELSE <<i>> \o Walk(i + s, j, s)
Visits(x, y, s, n) == Walk(NStart(x, s, n), NStop(y, s, n), s)
(* closed form of the number visited, used for huge lengths *)
Count(i, j, s) == IF s > 0 THEN (IF i < j THEN (j - i - 1) \div s + 1 ELSE 0)
                  ELSE (IF j < i THEN (i - j - 1) \div (-s) + 1 ELSE 0)
=============================================================================
