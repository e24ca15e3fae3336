-------------------------------- MODULE Deep --------------------------------
(* Very deep and very wide expressions: closed forms of their value and derivatives at x, y, for every shape,
   every set of derivative objects taken, and every order of letting go. After letting go nothing remains. *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depths
VARIABLES c
Shapes == {"addl", "subr", "mul", "square", "sin", "neg", "ladder", "wide", "comp"}
Derivs == {"none", "grad", "gradsym", "hess", "jac"}
Orders == {"root", "leaf", "deriv"}
Even(n) == n % 2 = 0
(* [v, gx, gy] at x = X0(shape), y = 1; entries beyond exact range are left out ("skip") *)
X0(s) == IF s \in {"sin"} THEN 0 ELSE IF s \in {"square", "ladder"} THEN 1 ELSE 2
Ans(s, n) ==
  CASE s \in {"addl", "comp"} -> <<2 + n, 1, n>>
    [] s = "subr" -> (IF Even(n) THEN <<2, 1, 0>> ELSE <<-1, -1, 1>>)
    [] s = "mul" -> <<2, 1, 2 * n>>
    [] s = "square" -> <<1, IF n <= 20 THEN 2 ^ n ELSE -9, 0>>
    [] s = "sin" -> <<0, 1, 0>>
    [] s = "neg" -> (IF Even(n) THEN <<2, 1, 0>> ELSE <<-2, -1, 0>>)
    [] s = "ladder" -> <<1, -9, -9>>
    [] s = "wide" -> <<2 * n, n, 2 * n>>
Deep(s, n) == ~(s = "square" /\ n > 900)
Ok(s, n, d) == /\ Deep(s, n)
               /\ (d = "hess" => (s \in {"addl", "subr", "neg", "comp", "wide", "mul"} /\ n <= 20000) \/ n <= 300)
               /\ (d = "gradsym" /\ s = "sin" => n <= 100000)
Init == c \in {k \in [s : Shapes, n : Depths, d : Derivs, o : Orders] : Ok(k.s, k.n, k.d)}
Next == FALSE /\ UNCHANGED c
Emit == PrintT("@D" \o ToJson([c |-> c, x |-> X0(c.s), e |-> Ans(c.s, c.n)]))
=============================================================================
