------------------------------ MODULE SolverTrace ------------------------------
(* Judges recorded solves: each line of traces.ndjson is one solve [c |-> scenario, ev |-> calls, end |-> end],
   rows as triples <<num, typ, fit>>, calls as tuples <<id, it, stop, dims, der, pos, fin, cip, hc, redu, t, far>>. The monitor is run over the events; a
   solve it rejects is printed. *)
EXTENDS SolverEvents, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES i, j, m
B(v) == v = 1
Ev(a) == [id |-> a[1], it |-> a[2], stop |-> B(a[3]), dims |-> B(a[4]), der |-> B(a[5]), pos |-> B(a[6]), fin |-> B(a[7]), cip |-> B(a[8]),
          hc |-> B(a[9]), redu |-> B(a[10]), t |-> a[11], far |-> B(a[12])]
Step(c, n, a) == IF Len(a) = 3 THEN Row(c, n, [num |-> a[1], typ |-> a[2], fit |-> B(a[3])]) ELSE Call(c, n, Ev(a))
C(r) == [r.c EXCEPT !.diag = B(r.c.diag), !.feas = B(r.c.feas), !.bad = B(r.c.bad), !.conv0 = B(r.c.conv0), !.known = B(r.c.known)]
E(r) == [r.end EXCEPT !.errok = B(r.end.errok), !.feasok = B(r.end.feasok), !.blown = B(r.end.blown), !.costok = B(r.end.costok)]
Init == i \in 1..Len(Traces) /\ j = 1 /\ m = Monitor0
Next == LET r == Traces[i] IN
        \/ j <= Len(r.ev) /\ m' = Step(C(r), m, r.ev[j]) /\ j' = j + 1 /\ UNCHANGED i
        \/ j = Len(r.ev) + 1 /\ m' = End(C(r), m, E(r)) /\ j' = j + 1 /\ UNCHANGED i
Done == j = Len(Traces[i].ev) + 2
Report == Done => (m.ended /\ (m.rej = {} \/ PrintT("@R" \o ToJson([i |-> i, rej |-> m.rej]))))
===============================================================================
