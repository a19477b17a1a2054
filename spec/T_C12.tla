------------------------------- MODULE T_C12 --------------------------------
(* Trace validation of energy statistics.                                          *)
EXTENDS Energy
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i
\* near zero the root amplifies rounding
CloseRoot(w, v, u) == CloseS(w, v, Tol7, u) \/ (RLe(v, RMul(Tol6, u)) /\ RLe(w, RMul(Num("1/200000"), u)))
Fails(e) ==
   CASE e.ev = "moment" ->
          IF e.out # "ok" THEN {"raised:" \o e.o.mode}
          ELSE LET neg == e.o.mode = "mdd" /\ RLt(MddSqIn(e.o, e.metric, e.x, Col(e.y, 1)), Tol9)
               IN IF neg THEN {}               \* an unbiased estimate below zero has no root
                  ELSE IF ~IsNum(e.val) THEN {"not-a-number:" \o e.o.mode}
                  ELSE LET v == EnergyIn(e.o, e.metric, e.x, e.y)
                           w == IF OrderOf(e.o) > 2 \/ e.o.center = "median" THEN RAbs(e.val) ELSE e.val
                           d == RMul(e.unit, e.unit)
                       IN IF ~IsFin(v) THEN {}
                          \* near zero the root amplifies rounding
                          ELSE IF CloseS(w, v, Tol7, e.unit) \/ (RLe(v, RMul(Tol6, e.unit)) /\ RLe(w, RMul(Num("1/200000"), e.unit))) THEN
                               (IF REq(e.val, e.attr) THEN {} ELSE {"attribute:" \o e.o.mode}) \cup
                               {"intermediate:" \o k : k \in {k \in Parts(e.o) : ~(IsNum(e.parts[k]) /\ CloseRoot(RAbs(e.parts[k]), RAbs(EnergyPart(e.o, e.metric, k, e.x, e.y)), e.unit2))}}
                          ELSE {"value:" \o e.o.mode}
     [] e.ev = "mddm" -> IF e.out # "ok" THEN {"raised:mddm"}
                         ELSE IF ~IsMat(e.M, Cols(e.y), Cols(e.y)) THEN {"shape:mddm"}
                         ELSE IF CloseMx(e.M, Mddm(e.x, e.y), Tol7) THEN {} ELSE {"value:mddm"}
     [] e.ev = "documented" -> IF e.out = "ok" THEN {} ELSE {"documented-mode-rejected"}
     [] e.ev = "rejected" -> IF e.out = "ok" THEN {"invalid-call-accepted"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"arguments-changed"}
     [] e.ev = "params" -> IF e.same THEN {} ELSE {"parameters-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
