------------------------------- MODULE T_C11 --------------------------------
(* Trace validation of product-moment statistics: every call must return the value
   determined by the present parameters and the arguments alone.                   *)
EXTENDS Moments
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i
Fails(e) ==
   CASE e.ev = "moment" ->
          IF e.out # "ok" THEN {"raised:" \o e.o.mode}
          ELSE IF ~IsNum(e.val) THEN {"not-a-number:" \o e.o.mode}
          ELSE LET v == Moment(e.o, e.x, e.y)
               IN IF ~IsFin(v) THEN {}            \* degenerate (zero variance)
                  ELSE IF ~CloseS(e.val, v, Tol7, e.unit) THEN {"value:" \o e.o.mode}
                  ELSE IF ~REq(e.val, e.attr) THEN {"attribute:" \o e.o.mode}
                  ELSE {"intermediate:" \o w : w \in {w \in Parts(e.o) : ~(IsNum(e.parts[w]) /\ CloseS(e.parts[w], Part(e.o, w, e.x, e.y), Tol7, e.unit2))}}
     [] e.ev = "invariance" -> IF Close(e.a, e.b, Tol7) THEN {} ELSE {"correlation-depends-on-scale"}
     [] e.ev = "rejected" -> IF e.out = "ok" THEN {"invalid-call-accepted"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"arguments-changed"}
     [] e.ev = "params" -> IF e.same THEN {} ELSE {"parameters-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
