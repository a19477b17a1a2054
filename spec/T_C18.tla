------------------------------- MODULE T_C18 --------------------------------
(* Trace validation: requests are accepted exactly when they are in the domain, and what a
   model answers is what it answered when it was accepted, whatever was refused since.     *)
EXTENDS Domain, Stats
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, m, ans

SameAns(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : a[k].shape = b[k].shape /\ CloseVS(a[k].v, b[k].v, Tol9, IF AllFinV(b[k].v) THEN RMax(One, MaxAbsV(b[k].v)) ELSE One)
Fails(e) ==
   CASE e.ev = "fit" -> LET ok == Ok(e.cls, e.q, e.d)
                        IN (IF ok /\ e.out # "ok" THEN {"refused-inside-domain"} ELSE IF ~ok /\ e.out = "ok" THEN {"accepted-outside-domain"} ELSE {})
                           \cup (IF e.params THEN {} ELSE {"parameters-changed"})
     [] e.ev = "use" -> LET a == Answers(m, e.cls, e.op, e.arg)
                        IN IF ~a THEN (IF e.out = "ok" THEN {"answered-what-must-be-refused"} ELSE {})
                           ELSE IF e.out # "ok" THEN {"refused-use"}
                           ELSE IF e.full /\ ~SameAns(e.ans, ans) THEN {"model-disturbed"} ELSE {}
     [] e.ev = "name" -> (IF e.out = "ok" THEN {"unknown-parameter-accepted"} ELSE {}) \cup (IF e.params THEN {} ELSE {"parameters-changed"})
     [] e.ev = "ask" -> IF e.ok = (e.out = "ok") THEN {} ELSE IF e.ok THEN {"refused-inside-domain"} ELSE {"accepted-outside-domain"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0 /\ m = NoModel /\ ans = [none |-> 0]
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
              /\ m' = IF e.ev = "fit" /\ ~e.fresh THEN Accept(m, e.cls, e.q, e.d, i + 1) ELSE m
              /\ ans' = IF e.ev = "fit" /\ ~e.fresh THEN (IF Ok(e.cls, e.q, e.d) /\ e.out = "ok" THEN e.ans ELSE ans) ELSE ans
        /\ i' = i + 1 /\ s' = s
=============================================================================
