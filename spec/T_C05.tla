------------------------------- MODULE T_C05 --------------------------------
(* Histories of a wrapper object: state = stored location and scale.              *)
EXTENDS Wrap, Scaler
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, st

Fails(e, est) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
   IN
   CASE e.ev \in {"fit", "fit_transform"} ->
          IF e.out # "ok" THEN {"fit-raised"}
          ELSE IF ~IsVec(e.c, p) \/ ~IsVec(e.s, p) THEN {"estimate-shape"}
          ELSE (IF CloseV(e.c, Centers(e.o, e.X), Tol9) THEN {} ELSE {"location-not-the-plug-in-estimate"})
          \cup (IF CloseV(e.s, Scales(e.o, e.X), Tol9) THEN {} ELSE {"scale-not-the-plug-in-estimate"})
          \cup (IF e.ev = "fit" THEN {}
                ELSE IF ~IsMat(e.Z, n, p) THEN {"wrap-shape"}
                ELSE {"wrapped-value" : q \in {q \in (1..n) \X (1..p) :
                         ~WrapOk(e.Z[q[1]][q[2]], e.X[q[1]][q[2]], e.c[q[2]], e.s[q[2]])}})
     [] e.ev = "wrap" ->
          IF ~est.fitted THEN (IF e.out = "ok" THEN {"wrap-before-fit"} ELSE {})
          ELSE IF e.out # "ok" THEN {"wrap-raised"}
          ELSE IF ~IsMat(e.Z, n, p) THEN {"wrap-shape"}
          ELSE {"wrapped-value-not-from-stored-estimates" : q \in {q \in (1..n) \X (1..p) :
                  ~WrapOk(e.Z[q[1]][q[2]], e.X[q[1]][q[2]], est.c[q[2]], est.s[q[2]])}}
     [] e.ev = "univ" ->     \* one vector of distances, scaled about its median and MAD when asked
          IF e.out # "ok" THEN {"wrap-raised"}
          ELSE IF ~IsVec(e.z, Len(e.x)) THEN {"wrap-shape"}
          ELSE LET m == IF e.scale THEN Median(e.x) ELSE Zero
                   sc == IF e.scale THEN Mad(e.x) ELSE One
               IN {"wrapped-distance" : q \in {q \in 1..Len(e.x) : ~WrapOk(e.z[q], e.x[q], m, sc)}}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"input-mutated"}
     [] OTHER -> {"unknown-event"}

Step(e, est) ==
   IF e.ev \in {"fit", "fit_transform"} /\ e.out = "ok" /\ IsVec(e.c, Cols(e.X)) /\ IsVec(e.s, Cols(e.X))
   THEN [fitted |-> TRUE, c |-> e.c, s |-> e.s] ELSE est

Init == s \in 1..Len(T) /\ i = 0 /\ st = [fitted |-> FALSE, c |-> <<>>, s |-> <<>>]
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e, st)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
              /\ st' = Step(e, st)
        /\ i' = i + 1 /\ s' = s
=============================================================================
