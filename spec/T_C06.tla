------------------------------- MODULE T_C06 --------------------------------
EXTENDS Weights
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

Fails(e) ==
   CASE e.ev = "weights" ->
          IF e.out # "ok" THEN {"weight-raised:" \o e.fun}
          ELSE IF ~IsVec(e.w, Len(e.x)) THEN {"weight-shape:" \o e.fun}
          ELSE {"weight-value:" \o e.fun : k \in {k \in 1..Len(e.x) :
                  ~Close(e.w[k], W(e.fun, e.x[k], e.c, e.b, e.r), Tol9)}}
          \cup (IF e.same THEN {} ELSE {"argument-overwritten:" \o e.fun})
     [] e.ev = "loss" ->
          LET res == VSub(e.y, e.f)
              w == Force([k \in 1..Len(res) |-> W(e.fun, res[k], e.c, e.b, e.r)])
              x == IF e.lfun = "mse" THEN WMse(e.y, e.f, w) ELSE WMae(e.y, e.f, w)
          IN IF e.out # "ok" THEN {"loss-raised"}
             ELSE IF ~IsNum(e.loss) THEN {"loss-not-a-number"}
             ELSE IF REq(RSum(w), Zero) \/ CloseR(e.loss, x, Tol9) THEN {} ELSE {"robust-loss-value"}
     [] e.ev = "stick" ->
          IF e.out # "ok" THEN {"stick-raised"}
          ELSE IF ~IsVec(e.q, e.n) THEN {"stick-shape"}
          ELSE {"stick-value" : k \in {k \in 1..e.n : ~Close(e.q[k], BrokenStick(e.n, k), Tol9)}}
     [] e.ev = "cvtable" ->
          IF e.out # "ok" THEN {"cvtable-raised"}
          ELSE IF e.rows # e.expect THEN {"cvtable-rows"} ELSE {}
     [] OTHER -> {"unknown-event"}

Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
