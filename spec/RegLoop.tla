-------------------------------- MODULE RegLoop --------------------------------
(* The regularised factorisation as a state machine: one object, a history of Compute actions, each of which
   factorises without shift and then escalates the shift delta (variables) / gamma (equality rows) step by step.

   Shifts are <<k, e, h>>: k = 0 is zero, k = 1 is 10^e / 2^h, k = 2 is eps * 10^e / 2^h.
   What a factorisation reports is a constant operator, so that the same loop serves several matrix families. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Mats, NV, NE, GammaMinZero, MaxH, MaxLen,
          Plain(_),          \* [fail, pos, neg, zero, sep] of the matrix itself
          Shifted(_, _, _)   \* the same with delta, gamma added
VARIABLES prev, pc, start, mat, d, g, steps, len
vars == <<prev, pc, start, mat, d, g, steps, len>>
Zero == <<0, 0, 0>>
Eps == <<2, 0, 0>>
LogEps == -1565356
(* decimal logarithm in units of 10^-5 *)
Log(s) == (IF s[1] = 2 THEN LogEps ELSE 0) + s[2] * 100000 - s[3] * 30103
Times10(s) == <<s[1], s[2] + 1, s[3]>>
Half(s) == <<s[1], s[2], s[3] + 1>>
TooBig(s) == s[1] # 0 /\ Log(s) > 2000000
GMin == IF GammaMinZero THEN Zero ELSE <<1, -10, 0>>
FirstDelta == IF prev[1] = 0 THEN <<1, -4, 0>>
              ELSE IF Log(Half(prev)) > LogEps THEN Half(prev) ELSE Eps
UpG(s) == IF s[1] = 0 THEN <<1, -10, 0>> ELSE Times10(s)
Init == prev = Zero /\ pc = "idle" /\ start = Zero /\ mat = <<>> /\ d = Zero /\ g = Zero /\ steps = 0 /\ len = 0
Ideal(r) == ~r.fail /\ r.pos = NV /\ r.neg = NE /\ r.zero = 0
Finish(info, dd, gg, m, n) ==
  /\ prev' = dd /\ pc' = "idle" /\ mat' = <<>> /\ d' = Zero /\ g' = Zero /\ start' = Zero /\ steps' = 0
  /\ len' = len + 1
  /\ PrintT("@E" \o ToJson([f |-> [p |-> IF pc = "idle" THEN prev ELSE start, l |-> len],
                            a |-> [m |-> m, info |-> info, d |-> dd, g |-> gg, n |-> n],
                            t |-> [p |-> dd, l |-> len + 1]]))
Compute(m) ==
  /\ pc = "idle" /\ len < MaxLen
  /\ LET r == Plain(m)
     IN  IF Ideal(r) /\ r.sep THEN Finish("ok", Zero, Zero, m, 0)
         ELSE /\ pc' = "try" /\ start' = prev /\ mat' = m /\ d' = FirstDelta /\ g' = GMin /\ steps' = 0
              /\ UNCHANGED <<prev, len>>
(* one attempt: accept, or raise delta and/or gamma as the outcome requires *)
Attempt ==
  /\ pc = "try"
  /\ LET r == Shifted(mat, d, g)
         nd == IF r.fail THEN Times10(d)
               ELSE IF r.zero > 0 THEN (IF g[1] = 0 THEN d ELSE Times10(d))
               ELSE IF r.neg > NE THEN Times10(d) ELSE d
         ng == IF r.fail THEN UpG(g)
               ELSE IF r.zero > 0 THEN UpG(g)
               ELSE IF r.neg > NE THEN g ELSE UpG(g)
     IN  IF Ideal(r) THEN Finish("ok", d, g, mat, steps)
         ELSE IF TooBig(nd) \/ TooBig(ng) THEN Finish("fail", nd, ng, mat, steps)
         ELSE /\ d' = nd /\ g' = ng /\ steps' = steps + 1 /\ UNCHANGED <<prev, pc, start, mat, len>>
Next == Attempt \/ \E m \in Mats : Compute(m)
Spec == Init /\ [][Next]_vars /\ WF_vars(Attempt)
Bounded == prev[3] <= MaxH
(* every computation ends: at most one attempt per decade of each shift *)
Terminates == steps <= 80
ShiftsNonneg == d[1] \in {0, 1, 2} /\ (pc = "try" => d[1] # 0)
EndsLive == pc = "try" ~> pc = "idle"
=============================================================================
