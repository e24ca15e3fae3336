-------------------------------- MODULE Print --------------------------------
(* Diagnostic printing.  Streams are healthy or broken; printing to a healthy stream appends exactly the formatted
   text (println: and a newline); printing to a broken one has no effect - in particular it never fails.        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT LEN
Kinds == {"file", "filenb", "fileline", "full", "fullb", "ro", "closed"}
Healthy == {"file", "filenb", "fileline"}
Items == {"plain", "braces", "ints", "status", "type", "inertia", "utf8", "pad", "dyn", "big", "moveonly", "empty"}
Fns == {"print", "println"}
VARIABLES kind, how, out, n
vars == <<kind, how, out, n>>
(* how: "f" prints to a FILE pointer, "s" to standard output *)
Init == kind \in Kinds /\ how \in {"f", "s"} /\ out = <<>> /\ n = 0
P(fn, it) == /\ n < LEN /\ n' = n + 1
             /\ out' = IF kind \in Healthy THEN Append(out, <<fn, it>>) ELSE out
             /\ UNCHANGED <<kind, how>>
             /\ PrintT("@E" \o ToJson([f |-> [k |-> kind, h |-> how, o |-> out, n |-> n],
                                       a |-> [fn |-> fn, it |-> it],
                                       t |-> [k |-> kind, h |-> how, o |-> out', n |-> n']]))
Next == \E fn \in Fns, it \in Items : P(fn, it)
Spec == Init /\ [][Next]_vars
AppendOnly == [][Len(out') >= Len(out) /\ SubSeq(out', 1, Len(out)) = out]_vars
NoneLost == (kind \in Healthy) => (Len(out) = n)
Text == [plain |-> "plain text", braces |-> "{x} {} }{", ints |-> "-1 0x2a 007 1.50", status |-> "Exit: feasibility restoration failed",
         type |-> "[   linear]", inertia |-> "(3, 1, 0)", pad |-> "|  ab|cd  | ef |", dyn |-> "    xyz|ma", moveonly |-> "7 8", empty |-> ""]
ASSUME PrintT("@T" \o ToJson(Text))
=============================================================================
