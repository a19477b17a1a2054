------------------------------ MODULE Gen_C17 -------------------------------
(* All requests one can make of the plotting objects *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLE r
Req == [kind : {"yyp", "proj", "weights", "coef"}, obj : {"sprm", "ppdire", "sudire"}, new : BOOLEAN, onlyval : BOOLEAN, names : {"none", "all"}, namesv : {"none", "all"},
        label : {"none", "str", "list"}, opt : 0..3]
Sensible(q) == /\ (q.kind \in {"weights", "coef"} => q.obj = "sprm")
               /\ (q.namesv = "all" => q.new)
               /\ (q.kind = "coef" => ~q.new /\ ~q.onlyval /\ q.namesv = "none" /\ q.label = "none")
               /\ (q.label = "list" => q.obj = "sprm")
               /\ (q.kind = "yyp" => q.opt = 0) /\ (q.kind = "proj" => q.opt < 2) /\ (q.kind = "weights" => q.opt < 3)
Init == r \in {q \in Req : Sensible(q)} /\ PrintT("CASE|" \o ToJson(r))
Next == FALSE /\ UNCHANGED r
=============================================================================
