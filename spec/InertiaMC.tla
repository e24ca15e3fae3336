-------------------------------- MODULE InertiaMC --------------------------------
(* Sign counts of a diagonal. Entries are tokens ordered by value; only those beyond +-eps count as signed. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N
(* value tokens: sign * rank, ranks: 0 zero, 1 smallest denormal, 2 eps/2, 3 eps, 4 just above eps, 5 one, 6 infinity *)
Tok == -6..6 \cup {100}   \* 100: negative zero
VARIABLE v
Init == \E n \in 0..N : v \in [1..n -> Tok]
Next == UNCHANGED v
Pos == Cardinality({k \in DOMAIN v : v[k] \in 4..6})
Neg == Cardinality({k \in DOMAIN v : v[k] \in -6..-4})
Partition == Pos + Neg <= Len(v)
Emit == PrintT("@V" \o ToJson([v |-> v, p |-> Pos, n |-> Neg, z |-> Len(v) - Pos - Neg]))
=============================================================================
