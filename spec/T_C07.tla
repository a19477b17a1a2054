------------------------------- MODULE T_C07 --------------------------------
(* Trace validation of robust M regression.  The k-th event of a session is the
   complete fitted model of the run stopped after k iterations; the state is the
   sequence of coefficient vectors seen so far, so every iteration of the real
   algorithm is checked as one step of Rm.tla.                                    *)
EXTENDS Rm
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, st

Scl(e) == [mx |-> e.mx, sx |-> e.sx, my |-> e.my, sy |-> e.sy]
Det(c) == c \in {"None", "mean", "median", "std", "mad"}
ScaleFails(e) ==
   LET so == [center |-> e.o.centre, scale |-> e.o.scale, trimming |-> Zero]
       Y == ColMat(e.y)
   IN (IF Det(e.o.centre) /\ ~(CloseVS(e.mx, Centers(so, e.X), Tol9, MaxAbsM(e.X)) /\ Close(e.my, Centers(so, Y)[1], Tol9))
       THEN {"location"} ELSE {})
      \cup (IF Det(e.o.scale) /\ ~(CloseV(e.sx, Scales(so, e.X), Tol9) /\ Close(e.sy, Scales(so, Y)[1], Tol9))
            THEN {"scale"} ELSE {})

Stopped(e, XS, YS) ==      \* "yes", "no" or "unsure" (within rounding of a threshold)
   LET m == Len(st.bs)
       b == st.bs[m]
       prevsq == IF m = 1 THEN Num("1/100000") ELSE Norm2(st.bs[m - 1])
       ch == Change(b, prevsq)
   IN IF TooFew(e.o, XS, YS, b) THEN "yes"
      ELSE IF RLe(RAbs(RSub(ch, e.o.tol)), RMul(Tol6, e.o.tol)) THEN "unsure"
      ELSE IF RLe(ch, e.o.tol) \/ st.stopped THEN "yes" ELSE "no"

RunFails(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
       XS == Xs(e.X, Scl(e))
       YS == Ys(e.y, Scl(e))
       first == Len(st.bs) = 0
       stp == IF first THEN "no" ELSE Stopped(e, XS, YS)
       expb == IF first THEN FirstB(e.o, XS, e.y, YS)
               ELSE IF stp = "yes" THEN st.bs[Len(st.bs)] ELSE NextB(e.o, XS, YS, st.bs[Len(st.bs)])
       rw == ResW(e.o, XS, YS, e.b)
       lw == LevW(e.o, XS)
       cw == VMul(rw, lw)
       dead == {k \in 1..n : RLt(cw[k], Floor6)}
       sure == {k \in 1..n : RLt(Tol9, RAbs(RSub(cw[k], Floor6)))}
       coef == Rescaled(e.b, Scl(e))
       yhat == MatVec(e.X, e.coef)
       ysc == RAdd(MaxAbsV(e.y), RMul(MaxAbsM(e.X), MaxAbsV(e.coef)))
   IN ScaleFails(e)
      \cup (IF stp # "unsure" /\ ~CloseVx(e.b, expb, Tol6) THEN {IF first THEN "first-weighted-fit" ELSE "reweighted-fit"} ELSE {})
      \cup {"case-weight" : k \in {k \in sure : ~Close(e.w[k], IF k \in dead THEN Zero ELSE cw[k], Tol7)}}
      \cup {"x-case-weight" : k \in {k \in sure : ~Close(e.wx[k], IF k \in dead THEN Zero ELSE lw[k], Tol7)}}
      \cup {"y-case-weight" : k \in {k \in sure : ~Close(e.wy[k], IF k \in dead THEN Zero ELSE rw[k], Tol7)}}
      \cup (IF CloseVx(e.coef, coef, Tol7) THEN {} ELSE {"coef-not-rescaled"})
      \cup (IF CloseS(e.icpt, Centre1(e.o, VSub(e.y, yhat)), Tol9, ysc) THEN {} ELSE {"intercept"})
      \cup (IF e.o.scale = "None" \/ CloseS(e.b0, Centre1(e.o, VSub(YS, MatVec(XS, e.b))), Tol7, MaxAbsV(YS)) THEN {} ELSE {"scaled-intercept"})
      \cup (IF CloseVS(e.fit, MapV(LAMBDA u : RAdd(u, e.icpt), yhat), Tol9, ysc) THEN {} ELSE {"fitted"})
      \cup (IF CloseVS(e.res, VSub(e.y, e.fit), Tol9, ysc) THEN {} ELSE {"residuals"})

Fails(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
   IN
   CASE e.ev = "rmrun" ->
          IF e.out # "ok" THEN {"fit-raised"}
          ELSE IF ~(IsVec(e.b, p) /\ IsVec(e.coef, p) /\ IsVec(e.w, n) /\ IsVec(e.wx, n) /\ IsVec(e.wy, n) /\
                    IsVec(e.fit, n) /\ IsVec(e.res, n) /\ IsVec(e.mx, p) /\ IsVec(e.sx, p)) THEN {"shape"}
          ELSE IF ~AllFinV(e.b) THEN {"not-finite"}
          ELSE RunFails(e)
     [] e.ev = "predict" ->
          IF e.out # "ok" THEN {"predict-raised"}
          ELSE IF ~IsVec(e.yp, n) THEN {"predict-shape"}
          ELSE LET z == MapV(LAMBDA u : RAdd(u, e.icpt), MatVec(e.X, e.coef))
               IN IF CloseVS(e.yp, z, Tol9, RAdd(RAbs(e.icpt), RMul(MaxAbsM(e.X), MaxAbsV(e.coef)))) THEN {} ELSE {"predict"}
     [] e.ev = "converged" ->     \* default iteration limit: same model as the last run
          IF e.out # "ok" THEN {"fit-raised"}
          ELSE IF ~st.stopped \/ CloseVx(e.b, st.bs[Len(st.bs)], Tol6) THEN {} ELSE {"converged-model-differs"}
     [] e.ev = "badwidth" -> IF e.out = "ok" THEN {"wrong-number-of-columns-accepted"} ELSE {}
     [] OTHER -> {"unknown-event"}

Step(e) ==
   IF e.ev = "rmrun" /\ e.out = "ok" /\ IsVec(e.b, Cols(e.X)) /\ IsVec(e.mx, Cols(e.X)) /\ IsVec(e.sx, Cols(e.X))
   THEN [bs |-> Append(st.bs, e.b),
         stopped |-> IF Len(st.bs) = 0 THEN FALSE ELSE st.stopped \/ Stopped(e, Xs(e.X, Scl(e)), Ys(e.y, Scl(e))) = "yes"]
   ELSE st

Init == s \in 1..Len(T) /\ i = 0 /\ st = [bs |-> <<>>, stopped |-> FALSE]
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
              /\ st' = Step(e)
        /\ i' = i + 1 /\ s' = s
=============================================================================
