------------------------------ MODULE Gen_C13 -------------------------------
(* All parameter histories of one index object: every step evaluates the index or
   changes one parameter; the last step evaluates it.                              *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT L
Steps == ({"fit"} \X {1, 2}) \cup ({"degree"} \X {2, 3, 4}) \cup ({"scaling"} \X {0, 1}) \cup ({"options"} \X {0, 1, 2, 3, 4})
         \cup ({"pi"} \X {0, 1, 2}) \cup ({"weights"} \X {1, 2})
VARIABLE h
Init == h = <<>>
Next == /\ Len(h) < L
        /\ \E st \in Steps : (Len(h) = L - 1 => st[1] = "fit") /\ (Len(h) > 0 /\ st[1] # "fit" => h[Len(h)][1] # st[1]) /\ h' = Append(h, st)
        /\ IF Len(h') = L THEN PrintT("CASE|" \o ToJson(h')) ELSE TRUE
=============================================================================
