------------------------------ MODULE Gen_C16s ------------------------------
(* Solver scripts: sequences of L questions about the problem at one of two points *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
VARIABLE script
Init == script = <<>>
Next == /\ Len(script) < L
        /\ \E k \in {"obj", "grad", "con", "jac"} : \E q \in {0, 1} : script' = Append(script, <<k, q>>)
        /\ IF Len(script') = L THEN PrintT("CASE|" \o ToJson([script |-> script'])) ELSE TRUE
=============================================================================
