------------------------------ MODULE Gen_C02 -------------------------------
(* All histories of calls of length Len on a scaler object over two data sets
   (A: training size, B: other size and values) and one single case.            *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS L
Data == {"A", "B", "one"}
Ops == ({"fit", "ft"} \X {"A", "B"}) \cup ({"transform", "predict", "inverse", "round"} \X Data)
       \cup ({"setp"} \X {"mean/std", "median/mad"})
VARIABLES hist, fitted
Init == hist = <<>> /\ fitted = FALSE
Next == /\ Len(hist) < L
        /\ \E o \in Ops :
             \* un-fitted use is only explored once, as first call
             /\ (~fitted /\ o[1] \in {"transform", "predict", "inverse", "round"}) => (Len(hist) = 0 /\ o[1] = "transform")
             /\ hist' = Append(hist, o)
             /\ fitted' = (fitted \/ o[1] \in {"fit", "ft"})
        /\ IF Len(hist') = L /\ fitted' THEN PrintT("CASE|" \o ToJson(hist')) ELSE TRUE
=============================================================================
