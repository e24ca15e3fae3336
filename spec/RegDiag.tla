-------------------------------- MODULE RegDiag --------------------------------
(* Diagonal matrices: entry <<s, p>> is s * 3 * 10^p (s = 0: zero). Exact for every shift. *)
EXTENDS RegLoop
CONSTANTS Ents, Sparse
LogE(b) == b[2] * 100000 + 47712
Sgn(b, ss, sh) ==   \* sign class of entry b plus ss * sh
  IF sh[1] = 0 THEN b[1]
  ELSE IF b[1] = 0 THEN (IF Log(sh) > LogEps THEN ss ELSE 0)
  ELSE IF b[1] = ss THEN ss
  ELSE IF LogE(b) > Log(sh) THEN b[1] ELSE ss
(* the model is exact only away from cancellation *)
Clear(b, sh) == sh[1] = 0 \/ b[1] = 0 \/ LogE(b) - Log(sh) > 500 \/ Log(sh) - LogE(b) > 500
Cnt(m, dd, gg, s) == Cardinality({k \in 1..(NV + NE) : Sgn(m[k], IF k <= NV THEN 1 ELSE -1, IF k <= NV THEN dd ELSE gg) = s})
(* a sparse elimination cannot pass an exactly zero pivot *)
ExactZero(m, dd, gg) == \E k \in 1..(NV + NE) : m[k][1] = 0 /\ (IF k <= NV THEN dd ELSE gg)[1] = 0
DShifted(m, dd, gg) ==
  [fail |-> Sparse /\ ExactZero(m, dd, gg), pos |-> Cnt(m, dd, gg, 1), neg |-> Cnt(m, dd, gg, -1),
   zero |-> Cnt(m, dd, gg, 0)]
DPlain(m) == [fail |-> Sparse /\ ExactZero(m, Zero, Zero), pos |-> Cnt(m, Zero, Zero, 1), neg |-> Cnt(m, Zero, Zero, -1),
              zero |-> Cnt(m, Zero, Zero, 0), sep |-> \A k \in 1..(NV + NE) : m[k][1] # 0 /\ m[k][2] >= -4]
DMats == [1..(NV + NE) -> Ents]
NoCancel == pc = "try" => \A k \in 1..(NV + NE) : Clear(mat[k], IF k <= NV THEN d ELSE g)
EntsA == {<<-1, 2>>, <<-1, -3>>, <<-1, -6>>, <<0, 0>>, <<1, -6>>, <<1, 1>>}
EntsB == {<<-1, 22>>, <<1, 23>>, <<0, 0>>, <<-1, 1>>, <<1, 1>>, <<-1, -12>>, <<1, 18>>, <<-1, 17>>}
EntsC == {<<0, 0>>}
EntsD == {<<-1, -1>>, <<1, -2>>, <<0, 0>>, <<1, -5>>}
EntsE == {<<-1, 22>>, <<0, 0>>, <<1, 1>>, <<-1, -6>>, <<-1, 3>>}
=============================================================================
