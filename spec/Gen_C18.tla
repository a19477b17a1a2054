------------------------------- MODULE Gen_C18 ------------------------------
(* Histories of requests inside and outside the domain and of uses, all of length L *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
VARIABLE h
Ops == {"fitA", "fitB", "badparam", "baddata", "use", "wronguse", "badname"}
Init == h = <<>>
Next == /\ Len(h) < L
        /\ \E op \in Ops :
             /\ (Len(h) = L - 1 => op \in {"use", "wronguse"})
             /\ (IF h = <<>> THEN op # "badname" ELSE h[Len(h)] # op)
             /\ h' = Append(h, op)
        /\ IF Len(h') = L THEN PrintT("CASE|" \o ToJson(h')) ELSE TRUE
=============================================================================
