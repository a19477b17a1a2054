------------------------------- MODULE T_C13 --------------------------------
(* Trace validation of the co-moment analysis projection index.                    *)
EXTENDS Capi
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i
SetOf(v) == {v[k] : k \in 1..Len(v)}
Fails(e) ==
   CASE e.ev = "index" ->
          LET c == [e.c EXCEPT !.options = SetOf(e.c.options)]
              m == CapiMoments(c, e.x, e.y)
              v == Dot(c.weights, m)
          IN IF e.out # "ok" THEN {"raised"}
             ELSE IF ~IsVec(e.m, 6) \/ ~IsNum(e.val) THEN {"shape"}
             ELSE IF \E q \in 1..6 : ~IsFin(m[q]) THEN {}          \* degenerate data
             ELSE {"co-moment" : q \in {q \in 1..6 : ~CloseS(IF e.c.est = "distance" THEN RAbs(e.m[q]) ELSE e.m[q], m[q], Tol6, e.unit)}}
             \cup (IF \A q \in 1..6 : REq(m[q], Zero) \/ CloseS(e.m[q], m[q], Tol6, e.unit)
                   THEN (IF CloseS(e.val, v, Tol6, RMul(e.unit, Num(20))) THEN {} ELSE {"index-not-the-weighted-sum"}) ELSE {})
             \cup (IF REq(e.val, e.attr) THEN {} ELSE {"attribute"})
     [] e.ev = "rejected" -> IF e.out = "ok" THEN {"invalid-call-accepted"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"arguments-changed"}
     [] e.ev = "params" -> IF e.same THEN {} ELSE {"parameters-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
