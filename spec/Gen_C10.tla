------------------------------ MODULE Gen_C10 -------------------------------
(* Histories of two estimator objects; exhaustive up to length L, ending in a fit or a use *)
EXTENDS Life, Json
CONSTANTS L, Data
VARIABLES objs, h
Init == objs = Init0(2) /\ h = <<>>
Same(a, b) == IF a[1] # b[1] THEN FALSE ELSE a = b
NotBack(a, b) == IF a[1] # "set" THEN TRUE ELSE a[3] < b[3]
Next == /\ Len(h) < L
        /\ \E op \in Ops(2, Data) :
              /\ (h = <<>> => op[2] = 1 /\ op[1] \in {"set", "fit"})              \* symmetry
              /\ IF h # <<>> /\ op[1] \in {"use", "wrong"} THEN ~Same(h[Len(h)], op) ELSE TRUE
              /\ IF h # <<>> /\ op[1] = "set" THEN NotBack(h[Len(h)], op) ELSE TRUE
              /\ (op[1] \in {"use", "wrong"} => CanUse(objs[op[2]]) \/ (Len(h) < 2 /\ op[3] = "N"))
              /\ (op[1] = "pickle" => CanUse(objs[op[2]]))
              /\ (Len(h) = L - 1 => op[1] \in {"fit", "use"})
              /\ h' = Append(h, op) /\ objs' = Apply(objs, op)
        /\ IF Len(h') = L THEN PrintT("CASE|" \o ToJson(h')) ELSE TRUE
=============================================================================
