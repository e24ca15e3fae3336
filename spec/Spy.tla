---------------------------------- MODULE Spy ----------------------------------
(* A sparsity recording: a byte stream that a writer appends to and a reader can decode.
   Writer: Open writes title, labels and dimensions; every Add appends one matrix entry.
   Values are kept as signs; a stored zero is recorded as '0'.                          *)
EXTENDS Rand, FiniteSets, TLC, Json
CONSTANTS NB
VARIABLES id, step, bytes, mats, hdr
vars == <<id, step, bytes, mats, hdr>>
LE32(n) == LET m == IF n < 0 THEN 0 ELSE n IN <<m % 256, (m \div 256) % 256, (m \div 65536) % 256, m \div 16777216>>
Strs == <<<<>>, <<65>>, <<72, 101, 115, 115, 105, 97, 110>>, <<226, 136, 135, 102>>, <<10, 0, 13, 10, 26, 255>>,
          [k \in 1..300 |-> 97 + (k % 26)], [k \in 1..256 |-> 66]>>
Dims == <<0, 1, 2, 3, 5>>
Flat3(c) == LE32(c.r) \o LE32(c.c) \o <<IF c.s > 0 THEN 43 ELSE IF c.s < 0 THEN 45 ELSE 48>>
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Str(s) == LE32(Len(s)) \o s
Header(h) == Str(h.title) \o Str(h.rl) \o Str(h.cl) \o LE32(h.rows) \o LE32(h.cols)
MatBytes(m) == LE32(Len(m)) \o Cat([k \in 1..Len(m) |-> Flat3(m[k])])
K == id * 16 + step
(* stored coordinates of one matrix in column-major order *)
GenMat(h, i) ==
  LET R == IF h.rows > 5 THEN 5 ELSE h.rows
      C == IF h.cols > 5 THEN 5 ELSE h.cols
      big == h.rows > 5
      Go[q \in 0..(R * C)] ==
        IF q = 0 THEN <<>>
        ELSE LET c == (q - 1) \div R
                 r == (q - 1) % R
                 d == Draw(i, 100 + q, 5)
             IN  Go[q - 1] \o (IF d < 3 THEN <<[r |-> IF big THEN r * (h.rows \div 5) ELSE r,
                                                c |-> IF h.cols > 5 THEN c * (h.cols \div 5) ELSE c, s |-> d - 1]>> ELSE <<>>)
  IN  Go[R * C]
Init == /\ id \in 1..NB /\ step = 0
        /\ hdr = [title |-> Pick(id, 1, Strs), rl |-> Pick(id, 2, Strs), cl |-> Pick(id, 3, Strs),
                  rows |-> Pick(id, 4, <<0, 1, 2, 3, 5, 300, 70000>>), cols |-> Pick(id, 5, <<0, 1, 2, 3, 4, 300>>)]
        /\ bytes = Header(hdr) /\ mats = <<>>
Add == /\ step < Draw(id, 6, 5)
       /\ LET m == GenMat(hdr, K)
          IN  mats' = Append(mats, m) /\ bytes' = bytes \o MatBytes(m)
       /\ step' = step + 1 /\ UNCHANGED <<id, hdr>>
Spec == Init /\ [][Add]_vars
(* a reader recovers exactly what was written *)
RdInt(p) == bytes[p] + 256 * bytes[p + 1] + 65536 * bytes[p + 2] + 16777216 * bytes[p + 3]
Mk(ok, p, out) == [ok |-> ok, p |-> p, out |-> out]
RdStr(p) == LET n == RdInt(p) IN Mk(TRUE, p + 4 + n, SubSeq(bytes, p + 4, p + 3 + n))
RdHdr == LET a == RdStr(1) b == RdStr(a.p) c == RdStr(b.p)
         IN  Mk(TRUE, c.p + 8, [title |-> a.out, rl |-> b.out, cl |-> c.out, rows |-> RdInt(c.p), cols |-> RdInt(c.p + 4)])
RdMat(p) == LET n == RdInt(p)
            IN  Mk(TRUE, p + 4 + 9 * n, [k \in 1..n |-> [r |-> RdInt(p + 4 + 9 * (k - 1)), c |-> RdInt(p + 8 + 9 * (k - 1)),
                     s |-> LET ch == bytes[p + 12 + 9 * (k - 1)] IN IF ch = 43 THEN 1 ELSE IF ch = 45 THEN -1 ELSE 0]])
RECURSIVE RdAll(_)
RdAll(p) == IF p > Len(bytes) THEN <<>> ELSE LET m == RdMat(p) IN <<m.out>> \o RdAll(m.p)
RoundTrip == RdHdr.out = hdr /\ RdAll(RdHdr.p) = mats
OneEntryPerAdd == Len(mats) = step
Emit == step = Draw(id, 6, 5) => PrintT("@V" \o ToJson([hdr |-> hdr, mats |-> mats, bytes |-> bytes]))
=============================================================================
