--------------------------------- MODULE Text ---------------------------------
(* The fixed vocabulary: exit statuses and expression types with their numbers, names and texts, and
   how a format specification [[fill]align][width][.precision] applies to a text.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
E(n, v, t) == [name |-> n, value |-> v, text |-> t]
Status == <<E("SUCCESS", 0, "success"), E("CALLBACK_REQUESTED_STOP", 1, "callback requested stop"),
            E("TOO_FEW_DOFS", -1, "too few degrees of freedom"), E("LOCALLY_INFEASIBLE", -2, "locally infeasible"),
            E("GLOBALLY_INFEASIBLE", -3, "globally infeasible"), E("FACTORIZATION_FAILED", -4, "factorization failed"),
            E("LINE_SEARCH_FAILED", -5, "line search failed"),
            E("FEASIBILITY_RESTORATION_FAILED", -6, "feasibility restoration failed"),
            E("NONFINITE_INITIAL_GUESS", -7, "nonfinite initial guess"), E("DIVERGING_ITERATES", -8, "diverging iterates"),
            E("MAX_ITERATIONS_EXCEEDED", -9, "max iterations exceeded"), E("TIMEOUT", -10, "timeout")>>
Type == <<E("NONE", 0, "none"), E("CONSTANT", 1, "constant"), E("LINEAR", 2, "linear"), E("QUADRATIC", 3, "quadratic"),
          E("NONLINEAR", 4, "nonlinear")>>
Dynamics == <<E("EXPLICIT_ODE", 0, ""), E("DISCRETE", 1, "")>>
Timestep == <<E("FIXED", 0, ""), E("VARIABLE", 1, ""), E("VARIABLE_SINGLE", 2, "")>>
Transcription == <<E("DIRECT_TRANSCRIPTION", 0, ""), E("DIRECT_COLLOCATION", 1, ""), E("SINGLE_SHOOTING", 2, "")>>
Rng(s) == {s[k] : k \in 1..Len(s)}
Distinct(s) == \A i, j \in 1..Len(s) : (i # j) => (s[i].name # s[j].name /\ s[i].value # s[j].value)
TextsDistinct(s) == \A i, j \in 1..Len(s) : (i # j) => (s[i].text # s[j].text /\ s[i].text # "")
ASSUME /\ \A s \in {Status, Type, Dynamics, Timestep, Transcription} : Distinct(s)
       /\ TextsDistinct(Status) /\ TextsDistinct(Type)
       /\ \A e \in Rng(Status) : (e.name = "SUCCESS") <=> (e.value = 0)
       /\ \A e \in Rng(Status) : e.value > 0 => e.name = "CALLBACK_REQUESTED_STOP"
(* -------- format specifications -------- *)
Fills == {"", "*", "<", "0"}      \* fill is only given together with an alignment
Aligns == {"", "<", ">", "^"}
Widths == {0, 1, 7, 8, 10, 23, 40}
Precs == {-1, 0, 1, 4, 9, 64}
Repeat[n \in 0..80, c \in Fills \cup {" "}] == IF n = 0 THEN "" ELSE c \o Repeat[n - 1, c]
Pad(t, sp) ==
  LET u == IF sp.prec >= 0 /\ sp.prec < Len(t) THEN SubSeq(t, 1, sp.prec) ELSE t
      n == IF sp.width > Len(u) THEN sp.width - Len(u) ELSE 0
      c == IF sp.fill = "" THEN " " ELSE sp.fill
      l == CASE sp.align \in {"", "<"} -> 0 [] sp.align = ">" -> n [] sp.align = "^" -> n \div 2
  IN  Repeat[l, c] \o u \o Repeat[n - l, c]
SpecText(sp) == sp.fill \o sp.align \o (IF sp.width = 0 THEN "" ELSE ToString(sp.width))
                \o (IF sp.prec < 0 THEN "" ELSE "." \o ToString(sp.prec))
Specs == {sp \in [fill : Fills, align : Aligns, width : Widths, prec : Precs] : sp.align = "" => sp.fill = ""}
(* -------- inertia -------- *)
Counts == {0, 1, 7, 12, 100, 2147483647}
VARIABLES kind, e, sp
vars == <<kind, e, sp>>
None == [fill |-> "", align |-> "", width |-> 0, prec |-> -1]
Init == \/ kind = "status" /\ e \in Rng(Status) /\ sp \in Specs
        \/ kind = "type" /\ e \in Rng(Type) /\ sp \in Specs
        \/ kind = "inertia" /\ e \in [p : Counts, n : Counts, z : Counts] /\ sp = None
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Out == IF kind = "inertia" THEN "(" \o ToString(e.p) \o ", " \o ToString(e.n) \o ", " \o ToString(e.z) \o ")"
       ELSE Pad(e.text, sp)
WideEnough == kind # "inertia" => Len(Out) >= sp.width
NothingLost == (kind # "inertia" /\ sp.prec < 0 /\ sp.width = 0) => Out = e.text
Emit == PrintT("@V" \o ToJson([kind |-> kind, e |-> e, fmt |-> SpecText(sp), w |-> sp.width, p |-> sp.prec,
                               fa |-> sp.fill \o sp.align, out |-> Out]))
ASSUME PrintT("@T" \o ToJson([ExitStatus |-> Status, ExpressionType |-> Type, DynamicsType |-> Dynamics,
                              TimestepMethod |-> Timestep, TranscriptionMethod |-> Transcription]))
=============================================================================
