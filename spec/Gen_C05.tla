------------------------------ MODULE Gen_C05 -------------------------------
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L
Ops == ({"fit", "ft"} \X {"A", "B"}) \cup ({"transform", "predict", "fun"} \X {"A", "B", "one"})
VARIABLES hist, fitted
Init == hist = <<>> /\ fitted = FALSE
Next == /\ Len(hist) < L
        /\ \E o \in Ops :
             /\ (~fitted /\ o[1] \in {"transform", "predict", "fun"}) => (Len(hist) = 0 /\ o[1] = "transform")
             /\ hist' = Append(hist, o)
             /\ fitted' = (fitted \/ o[1] \in {"fit", "ft"})
        /\ IF Len(hist') = L /\ fitted' THEN PrintT("CASE|" \o ToJson(hist')) ELSE TRUE
=============================================================================
