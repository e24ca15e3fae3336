------------------------------- MODULE PyCall -------------------------------
(* The Python functions and operators over numbers, variables, matrices and blocks:   *)
(* for every function and every kind of argument, the kind of the result, its value    *)
(* and its partial derivatives, as formulas in x, y, z (the arguments in order).        *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE row
All == <<"-9/4", "-1", "1/2", "3">>
Unit == <<"-3/4", "-1/8", "1/4", "5/8">>
Pos == <<"1/8", "1", "9/4", "16">>
Unary == {
  <<"abs", All, "abs(x)", "sign(x)">>, <<"acos", Unit, "acos(x)", "-1/sqrt(1-x**2)">>, <<"asin", Unit, "asin(x)", "1/sqrt(1-x**2)">>,
  <<"atan", All, "atan(x)", "1/(1+x**2)">>, <<"cbrt", Pos, "cbrt(x)", "1/(3*cbrt(x)**2)">>, <<"cos", All, "cos(x)", "-sin(x)">>,
  <<"cosh", All, "cosh(x)", "sinh(x)">>, <<"erf", All, "erf(x)", "2/sqrt(pi)*exp(-x**2)">>, <<"exp", All, "exp(x)", "exp(x)">>,
  <<"log", Pos, "log(x)", "1/x">>, <<"log10", Pos, "log(x)/log(10)", "1/(x*log(10))">>, <<"sign", All, "sign(x)", "0">>, <<"sin", All, "sin(x)", "cos(x)">>,
  <<"sinh", All, "sinh(x)", "cosh(x)">>, <<"sqrt", Pos, "sqrt(x)", "1/(2*sqrt(x))">>, <<"tan", All, "tan(x)", "1/cos(x)**2">>,
  <<"tanh", All, "tanh(x)", "1/cosh(x)**2">>, <<"neg", All, "-x", "-1">>, <<"pos", All, "x", "1">> }
Binary == {
  <<"atan2", All, All, "atan2(x,y)", <<"y/(x**2+y**2)", "-x/(x**2+y**2)">>>>,
  <<"hypot", All, All, "hypot(x,y)", <<"x/hypot(x,y)", "y/hypot(x,y)">>>>,
  <<"max", All, All, "max(x,y)", <<"1 if x>y else 0", "1 if y>x else 0">>>>,
  <<"min", All, All, "min(x,y)", <<"1 if x<y else 0", "1 if y<x else 0">>>>,
  <<"pow", Pos, All, "x**y", <<"y*x**(y-1)", "x**y*log(x)">>>>,
  <<"add", All, All, "x+y", <<"1", "1">>>>, <<"sub", All, All, "x-y", <<"1", "-1">>>>, <<"mul", All, All, "x*y", <<"y", "x">>>>,
  <<"div", All, All, "x/y", <<"1/y", "-x/y**2">>>>, <<"ipow", All, <<"0", "1", "2", "3", "-1", "-2">>, "x**y", <<"y*x**(y-1)", "0">>>>,
  <<"iadd", All, All, "x+y", <<"1", "1">>>>, <<"isub", All, All, "x-y", <<"1", "-1">>>>, <<"imul", All, All, "x*y", <<"y", "x">>>>,
  <<"idiv", All, All, "x/y", <<"1/y", "-x/y**2">>>> }
Ternary == { <<"hypot", "sqrt(x**2+y**2+z**2)", <<"x/sqrt(x**2+y**2+z**2)", "y/sqrt(x**2+y**2+z**2)", "z/sqrt(x**2+y**2+z**2)">>>> }
Relation == { <<"eq", "x==y">>, <<"lt", "x<=y">>, <<"le", "x<=y">>, <<"gt", "x>=y">>, <<"ge", "x>=y">> }
Kinds == {"int", "float", "np", "var", "mat", "blk"}
Numbers == {"int", "float", "np"}
Scalars == Numbers \cup {"var"}
Elems(s) == {s[k] : k \in 1..Len(s)}
Integral == {"-9", "-2", "-1", "0", "1", "2", "3", "16"}
Has(k, v) == k # "int" \/ v \in Integral
R(fn, as, out, val, d) == [fn |-> fn, args |-> as, out |-> out, val |-> val, d |-> d]
A(k, v) == [k |-> k, v |-> v]
Rows ==
  \* a function of a number is a variable too; an operator on numbers alone is Python's own
  { R(f[1], <<A(k, v)>>, IF k \in Scalars THEN "var" ELSE "mat", f[3], <<f[4]>>) :
      <<f, k, v>> \in {q \in Unary \X Kinds \X (Elems(All) \cup Elems(Unit) \cup Elems(Pos)) :
                       /\ q[3] \in Elems(q[1][2]) /\ Has(q[2], q[3]) /\ (q[1][1] \in {"neg", "pos"} => q[2] \notin Numbers) /\ (q[1][1] = "pos" => q[2] = "var")} }
  \cup { R(f[1], <<A(k, v), A(l, w)>>, "var", f[4], f[5]) :
      <<f, k, l, v, w>> \in {q \in Binary \X Scalars \X Scalars \X (Elems(All) \cup Elems(Pos)) \X {"-9/4", "-2", "-1", "0", "1/2", "1", "2", "3"} :
                       /\ q[4] \in Elems(q[1][2]) /\ q[5] \in Elems(q[1][3]) /\ Has(q[2], q[4]) /\ Has(q[3], q[5])
                       /\ (q[1][1] \in {"add", "sub", "mul", "div"} => "var" \in {q[2], q[3]})
                       /\ (q[1][1] = "ipow" => q[2] = "var" /\ q[3] = "int")
                       /\ (q[1][1] \in {"iadd", "isub", "imul", "idiv"} => q[2] = "var")
                       /\ (q[1][1] \in {"max", "min", "hypot"} => q[4] # q[5])} }
  \cup { R(f[1], <<A(k, v), A(l, w), A(m, u)>>, "var", f[2], f[3]) :
      <<f, k, l, m, v, w, u>> \in {q \in Ternary \X Scalars \X Scalars \X Scalars \X {"-1", "1/2"} \X {"3", "-9/4"} \X {"-1", "1/2"} :
                       Has(q[2], q[5]) /\ Has(q[3], q[6]) /\ Has(q[4], q[7])} }
  \cup { R(f[1], <<A(k, v), A(l, w)>>, IF f[1] = "eq" THEN "eq" ELSE "ge", f[2], <<>>) :
      <<f, k, l, v, w>> \in {q \in Relation \X Scalars \X Scalars \X Elems(All) \X Elems(All) :
                       Has(q[2], q[4]) /\ Has(q[3], q[5]) /\ "var" \in {q[2], q[3]}} }
(* every relation between a variable and a number means the same from either side *)
Flip(fn) == CASE fn = "lt" -> "gt" [] fn = "gt" -> "lt" [] fn = "le" -> "ge" [] fn = "ge" -> "le" [] OTHER -> fn
Mirror == \A f \in Relation : \E g \in Relation : g[1] = Flip(f[1])
Init == row \in Rows
Next == FALSE /\ UNCHANGED row
Spec == Init /\ [][Next]_row
WellFormed == /\ Len(row.args) \in 1..3 /\ row.out \in {"var", "mat", "eq", "ge"} /\ (row.out \in {"var", "mat"} => Len(row.d) = Len(row.args))
              /\ Mirror
Emit == PrintT("@C" \o ToJson(row))
=============================================================================
