-------------------------------- MODULE Rand --------------------------------
(* Deterministic pseudo-random draws, so that large input spaces are sampled reproducibly:
   Draw(i, j, n) is the j-th draw of sample i, in 0..n-1. *)
EXTENDS Integers, Sequences
CONSTANT SEED
Hash(i, j) == LET a == (i * 31 + j * 7 + SEED * 101) % 46337
                  b == (((a * a) % 46337) + 12345 + j * 1009) % 46337
                  c == (((b * b) % 46337) + i * 17 + j) % 46337
              IN  (((c * c) % 46337) + 777 + i) % 46337
Draw(i, j, n) == Hash(i, j) % n
Pick(i, j, s) == s[Draw(i, j, Len(s)) + 1]
PickSeq(i, j, n, s) == [k \in 1..n |-> Pick(i, j * 97 + k, s)]
=============================================================================
