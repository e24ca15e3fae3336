-------------------------------- MODULE Pool --------------------------------
(* A pool of memory blocks. Blocks of a size are carved from chunks of B blocks; released blocks are reused
   before another chunk is taken. The spec tracks what is live, how many chunks each size owns and the number
   of blocks in use; where a block lies is the implementation's choice, constrained by the replayer's checks
   that a block is inside the pool's memory and disjoint from every live block. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Sizes, B, MaxLive, MaxChunks
VARIABLES live, chunks, home    \* live: sequence of sizes; chunks: size -> chunks owned; home: which pool object owns it all
vars == <<live, chunks, home>>

Count(s, q) == Len(SelectSeq(q, LAMBDA e: e = s))
InUse == Len(live)
Init == live = << >> /\ chunks = [s \in Sizes |-> 0] /\ home = 0
Grow(s) == Count(s, live) = chunks[s] * B
Alloc(s) == /\ Len(live) < MaxLive
            /\ Grow(s) => chunks[s] < MaxChunks
            /\ live' = Append(live, s)
            /\ chunks' = IF Grow(s) THEN [chunks EXCEPT ![s] = @ + 1] ELSE chunks
            /\ UNCHANGED home
Free(i) == /\ live' = SubSeq(live, 1, i - 1) \o SubSeq(live, i + 1, Len(live))
           /\ UNCHANGED <<chunks, home>>
MovePool == home' = 1 - home /\ UNCHANGED <<live, chunks>>
St(l, c, h) == [live |-> l, ch |-> [s \in 1..2 |-> IF s = 1 THEN c[CHOOSE e \in Sizes : \A f \in Sizes : e <= f] ELSE c[CHOOSE e \in Sizes : \A f \in Sizes : e >= f]],
                home |-> h, use |-> Len(l), total |-> LET S[T \in SUBSET Sizes] == IF T = {} THEN 0 ELSE LET e == CHOOSE e \in T : TRUE IN c[e] + S[T \ {e}] IN S[Sizes]]
Out(a) == PrintT("@E" \o ToJson([f |-> St(live, chunks, home), a |-> a, t |-> St(live', chunks', home')]))
Next == \/ \E s \in Sizes : Alloc(s) /\ Out(<<"a", s>>)
        \/ \E i \in 1..Len(live) : Free(i) /\ Out(<<"f", i>>)
        \/ MovePool /\ Out(<<"m", 0>>)
(* never more live blocks than the chunks hold; capacity grows only when needed *)
Fits == \A s \in Sizes : Count(s, live) <= chunks[s] * B
=============================================================================
