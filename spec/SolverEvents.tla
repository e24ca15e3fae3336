----------------------------- MODULE SolverEvents -----------------------------
(* What a solve may be seen to do: a deterministic monitor over the events of one solve. The same operators judge
   the abstract solver (Solver.tla, checked by TLC) and the events recorded from newton(), sqp() and
   interior_point() (SolverTrace.tla).

   A scenario c gives the solver, the sizes, the options and what is known at the start:
     kind, n, me, mi, nc (callbacks), maxit, tmo (time limit, -1 = none), slack (time a wrapper may take inside
     restoration), feas (feasible mode), bad (some initial value is not finite), conv0 (the start already
     satisfies the conditions), known (the multipliers are returned), diag (iteration rows are printed)
   Events
     call: id (position of the callback), it (iteration number it was given), stop (it asked to stop), dims, der
       (sizes and derivatives are those of the problem as posed), pos (slacks and multipliers > 0), fin (all
       finite), cip (inequalities strictly satisfied), hc (restoration is running), redu (violation below 90% of
       the last iterate outside restoration), t (time), far (the iterate is as far out as diverging iterates are)
     row: a printed row of the iteration table: num (its number), typ (0 ordinary, 1 second-order correction, 2 restoration),
       fit (its cost, violation, complementarity, error and step are those of the iterate that follows it)
     end: st (status), it (iteration counter, -1 = not returned), errok (the first-order error is within
       tolerance), feasok (violation within tolerance), blown (iterates diverged), costok (the cost was not seen to be
       other than finite there), t
   Every rejected event names the property it breaks. *)
EXTENDS Integers, Sequences, FiniteSets
If(b, r) == IF b THEN {r} ELSE {}
Monitor0 == [k |-> 0, pos |-> 0, cip |-> FALSE, stopped |-> FALSE, res |-> FALSE, ended |-> FALSE, rw |-> 0, rej |-> {}]
Newton == {0, 1, -4, -5, -7, -8, -9, -10}
Statuses(kind) == IF kind = "newton" THEN Newton ELSE Newton \union {-1, -2, -6}
Call(c, m, e) ==
  LET first == m.pos = 0
      last == m.pos + 1 = c.nc
      rej == If(m.stopped, "P13 a callback ran after a stop was requested")
        \union If(e.id # m.pos, "P13 callbacks out of order")
        \union If(e.it # m.k, "P13 iteration numbers are not consecutive from zero")
        \union If(~e.dims, "P13 data of another problem's dimensions")
        \union If(e.dims /\ ~e.der, "P13 derivatives are not those of the posed problem at this iterate")
        \union If(first /\ m.k >= c.maxit, "P14 more iterations than allowed")
        \union If(first /\ c.tmo >= 0 /\ e.t > c.tmo + (IF e.hc \/ m.res THEN c.slack ELSE 0), "P14 an iteration started after the time limit")
        \union If(c.bad, "P14 iterating from a non-finite initial guess")
        \union If(c.me > c.n, "P14 iterating with too few degrees of freedom")
        \union If(c.conv0, "P14 iterating although the start satisfies the conditions")
        \union If(e.dims /\ ~e.pos, "P16 slacks and inequality multipliers must be positive")
        \union If(e.far, "P14 iterating on although the iterates diverged")
        \union If(~e.fin, "P16 iterates must be finite")
        \union If(c.feas /\ m.cip /\ e.dims /\ ~e.cip /\ ~e.hc, "P16 feasible mode left the feasible region")
        \union If(first /\ c.diag /\ m.k > 0 /\ m.rw # 1, "P30 an iteration has not one row")
        \union If(first /\ m.res /\ ~e.hc /\ ~e.redu, "P27 restoration returned without reducing the violation")
  IN  [m EXCEPT !.pos = IF last THEN 0 ELSE m.pos + 1, !.k = IF last THEN m.k + 1 ELSE m.k,
                !.cip = m.cip \/ (e.cip /\ ~e.hc), !.stopped = m.stopped \/ e.stop, !.res = e.hc, !.rw = 0, !.rej = m.rej \union rej]
Row(c, m, e) ==
  LET rej == If(e.num # m.k - 1, "P30 a row is not numbered after its iteration")
        \union If(~e.fit, "P30 a row does not describe the iterate that followed")
        \union If(m.pos # 0 \/ m.stopped, "P30 a row in the middle of the callbacks or after a stop")
        \union If(c.kind = "newton" /\ e.typ # 0, "P30 a kind of row this solver has no use for")
  IN  [m EXCEPT !.rw = IF e.typ = 1 THEN m.rw ELSE m.rw + 1, !.rej = m.rej \union rej]
End(c, m, e) ==
  LET seen == c.nc > 0
      rej == If(m.ended, "P14 ended twice")
        \union If(m.rw > 1, "P30 an iteration has not one row")
        \union If(m.pos # 0 /\ ~m.stopped, "P13 a round of callbacks was left incomplete")
        \union If(m.stopped # (e.st = 1), "P13 a stop is reported exactly when a callback asks for it")
        \union If(e.st \notin Statuses(c.kind), "P14 a status this solver never reports")
        \union If((e.st = -1) # (c.me > c.n), "P14 too few degrees of freedom means more equalities than variables")
        \union If((e.st = -7) # (c.bad /\ c.me <= c.n), "P14 a non-finite initial guess means some initial value is not finite")
        \union If(e.st = 0 /\ c.known /\ ~e.errok, "P14 success with an error above the tolerance")
        \union If(e.st = 0 /\ ~c.known /\ ~e.feasok, "P14 success at an infeasible point")
        \union If(e.st = 0 /\ ~e.costok, "P14 success at a point whose cost is not finite")
        \union If(e.st = -9 /\ seen /\ m.k < c.maxit, "P14 the iteration limit was not reached")
        \union If(e.st = -10 /\ (c.tmo < 0 \/ e.t <= c.tmo), "P14 the time limit was not reached")
        \union If(e.st = -8 /\ ~e.blown, "P14 the iterates did not diverge")
        \union If(e.st = -2 /\ e.feasok, "P14 a feasible point was reported as locally infeasible")
        \union If(c.conv0 /\ ~c.bad /\ c.me <= c.n /\ e.st # 0, "P14 the start satisfies the conditions")
        \union If(~seen /\ e.it > c.maxit, "P14 more iterations than allowed")
        \union If(seen /\ e.it >= 0 /\ e.st \in {0, -9} /\ e.it # m.k, "P14 the iteration counter is wrong")
        \union If(seen /\ e.it >= 0 /\ e.st \notin {0, -9} /\ e.it \notin {m.k, m.k - 1}, "P14 the iteration counter is wrong")
  IN  [m EXCEPT !.ended = TRUE, !.rej = m.rej \union rej]
===============================================================================
