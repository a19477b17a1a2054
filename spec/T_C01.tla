------------------------------- MODULE T_C01 --------------------------------
(* Trace validation: every recorded fit of the real scaler must show the column
   estimates that Scaler.tla defines.                                           *)
EXTENDS Scaler
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

ColScale(e, j) == LET o == Obs(Col(e.X, j)) IN IF Len(o) = 0 THEN One ELSE MaxAbsV(o)
Determined(c) == c \in {"None", "mean", "median", "std", "mad", "scaleTau2"}

Fails(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
       o == [center |-> e.center, scale |-> e.scale, trimming |-> e.trimming]   \* of fits only
   IN
   IF e.ev = "tau"
   THEN IF e.out # "ok" THEN {"tau-raised"}
        ELSE IF ~IsVec(e.val, 1) THEN {"estimate-shape"}
        ELSE IF CloseS(e.val[1], Tau2Of(e.c1, e.c2, e.corr, Col(e.X, 1)), Tol7, RMul(Tol4, ColScale(e, 1))) THEN {} ELSE {"tau-with-options"}
   ELSE IF e.ev = "mad"
   THEN IF e.out # "ok" THEN {"mad-raised"}
        ELSE IF ~IsVec(e.val, p) THEN {"estimate-shape"}
        ELSE IF \A k \in 1..p : CloseS(RMul(e.val[k], e.c), RMul(Mad(Col(e.X, k)), Num("0.6744897501960817")), Tol7, RMul(Tol4, ColScale(e, k))) THEN {} ELSE {"mad-with-factor"}
   ELSE IF e.ev = "unchanged" THEN IF e.same THEN {} ELSE {"arguments-changed"}
   ELSE IF e.ev # "fit" THEN {"unknown-event"}
   ELSE IF e.out # "ok" THEN {"fit-raised"}
   ELSE IF ~IsVec(e.c, p) \/ ~IsVec(e.s, p) THEN {"estimate-shape"}
   ELSE LET ec == IF Determined(e.center) THEN Centers(o, e.X) ELSE e.c
            es == IF Determined(e.scale) THEN Scales(o, e.X) ELSE e.s
        IN  {"center:" \o e.center : j \in {k \in 1..p : ~CloseS(e.c[k], ec[k], Tol9, ColScale(e, k))}}
      \cup  {"scale:" \o e.scale : j \in {k \in 1..p : ~CloseS(e.s[k], es[k], Tol7, RMul(Tol4, ColScale(e, k)))}}
      \cup  (IF \E k \in 1..p : RLt(e.s[k], Zero) THEN {"negative-scale"} ELSE {})

Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
