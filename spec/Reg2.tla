---------------------------------- MODULE Reg2 ----------------------------------
(* All symmetric 2 x 2 integer matrices [[a, b], [b, c]] with small entries, exactly: quantities are integers in
   units of 10^-4 / 16; a gamma below 10^-4 acts as an infinitesimal. *)
EXTENDS RegLoop, Rat
CONSTANTS Sparse, Range, SparsePivot   \* index of the pivot a sparse elimination takes first
U == 160000
RECURSIVE Pow10(_)
Pow10(e) == IF e = 0 THEN 1 ELSE 10 * Pow10(e - 1)
RECURSIVE Pow2(_)
Pow2(e) == IF e = 0 THEN 1 ELSE 2 * Pow2(e - 1)
Tiny(s) == s[1] = 0 \/ s[2] < -4
Val(s) == IF Tiny(s) THEN 0 ELSE (16 \div Pow2(s[3])) * Pow10(s[2] + 4)
SgnI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
(* sign of A*C - B*B *)
Det(A, C, B) == IF A = 0 \/ C = 0 \/ SgnI(A) # SgnI(C) THEN (IF B # 0 \/ (A # 0 /\ C # 0) THEN -1 ELSE 0)
                ELSE LET a == AbsInt(A) c == AbsInt(C) b == AbsInt(B)
                     IN  IF b = 0 THEN 1 ELSE RCmp(<<a, b>>, <<b, c>>)
Res(f, p, n, z) == [fail |-> f, pos |-> p, neg |-> n, zero |-> z]
(* A, C: shifted diagonal; B off-diagonal; inf: the second diagonal entry is additionally lowered infinitesimally *)
Factor(A, C, B, inf) ==
  LET dt == Det(A, C, B)
      det == IF dt # 0 \/ ~inf THEN dt ELSE -SgnI(A)
      c2 == IF C = 0 /\ inf THEN -1 ELSE SgnI(C)
      sig == IF det < 0 THEN Res(FALSE, 1, 1, 0)
             ELSE IF det > 0 THEN (IF A > 0 THEN Res(FALSE, 2, 0, 0) ELSE Res(FALSE, 0, 2, 0))
             ELSE LET t == IF A = 0 THEN c2 ELSE SgnI(A)
                  IN  Res(FALSE, IF t > 0 THEN 1 ELSE 0, IF t < 0 THEN 1 ELSE 0, IF t = 0 THEN 2 ELSE 1)
  IN  IF Sparse
      THEN (* exact zero pivots are failures *)
           LET p1 == IF B = 0 THEN 1 ELSE IF SparsePivot = 1 THEN SgnI(A) ELSE c2
           IN  IF p1 = 0 \/ det = 0 THEN Res(TRUE, 0, 0, 0) ELSE sig
      ELSE IF A = 0 /\ c2 = 0 /\ B # 0 THEN Res(TRUE, 0, 0, 0) ELSE sig
M2Shifted(m, dd, gg) ==
  Factor(U * m[1] + Val(dd), U * m[3] + (IF NV = 2 THEN Val(dd) ELSE -Val(gg)), U * m[2],
         NV = 1 /\ gg[1] # 0 /\ Tiny(gg))
M2Plain(m) == LET r == Factor(U * m[1], U * m[3], U * m[2], FALSE)
              IN  [fail |-> r.fail, pos |-> r.pos, neg |-> r.neg, zero |-> r.zero, sep |-> r.zero = 0]
R2 == -Range..Range
M2Mats == {<<a, b, c>> : a \in R2, b \in R2, c \in R2}
(* accepted shifts really give the required signature; matrices that have it are left alone *)
Sound == pc = "try" => ~(Ideal(M2Plain(mat)) /\ M2Plain(mat).sep)
Exact == pc = "try" => (d[1] # 2 /\ d[2] >= -4 /\ d[3] <= 4 /\ (g[1] = 0 \/ g[3] = 0))
=============================================================================
