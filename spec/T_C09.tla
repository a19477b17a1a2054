------------------------------- MODULE T_C09 --------------------------------
(* Trace validation of sparse NIPALS: the h-th "comp" event of a session is the
   complete model with h components; the specification state is extended by one
   component per event and must explain every attribute.                           *)
EXTENDS Snipls
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, st

Det(c) == c \in {"None", "mean", "median", "std", "mad"}
Y0(e) == Force([k \in 1..Len(e.y) |-> RDiv(RSub(e.y[k], e.my), Safe(e.sy))])
NewState(e) == LET base == IF Len(st.W) = 0 /\ e.h = 1 THEN Start(Forward(e.mx, e.sx, e.X), Y0(e)) ELSE st
               IN Extend(base, e.o.eta)
ShapeOk(e) == LET n == Rows(e.X)
                  p == Cols(e.X)
              IN e.out = "ok" /\ IsMat(e.W, p, e.h) /\ IsMat(e.P, p, e.h) /\ IsMat(e.T, n, e.h) /\ IsVec(e.C, e.h)
                 /\ IsVec(e.b, p) /\ IsVec(e.coef, p) /\ IsMat(e.R, p, e.h) /\ IsVec(e.xev, e.h) /\ IsVec(e.yev, e.h)
                 /\ IsVec(e.fit, n) /\ IsVec(e.res, n) /\ IsVec(e.mx, p) /\ IsVec(e.sx, p) /\ IsNum(e.icpt)

\* fewer variables retained than components: the weight vectors are linearly dependent, the rotation does not exist
Exhausted(m, h) == Cardinality(m.ret) < h
Raised(e) == IF Len(st.W) > 0 /\ e.h = Len(st.W) + 1 THEN (IF Exhausted(Extend(st, e.o.eta), e.h) THEN {} ELSE {"fit-raised"}) ELSE {"fit-raised"}

Miss(v) == MapV(LAMBDA u : IF IsNaN(u) THEN Zero ELSE u, v)
MissM(M) == MapM(LAMBDA u : IF IsNaN(u) THEN Zero ELSE u, M)

CompFails(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
       m == NewState(e)
       so == [center |-> e.o.centre, scale |-> e.o.scale, trimming |-> Zero]
       Y == ColMat(e.y)
       ba == Force([j \in 1..p |-> RMul(RDiv(Safe(e.sy), Safe(e.sx[j])), e.b[j])])
       yh == NMatVec(e.X, e.coef)
       d == Obs(VSub(e.y, yh))
       ic == CASE e.o.centre = "mean" -> Mean(d) [] e.o.centre = "None" -> Zero [] OTHER -> Median(d)
       ysc == RAdd(MaxAbsV(Miss(e.y)), RMul(MaxAbsM(MissM(e.X)), MaxAbsV(e.coef)))
   IN (IF Det(e.o.centre) /\ ~(CloseVS(e.mx, Centers(so, e.X), Tol9, MaxAbsM(MissM(e.X))) /\ Close(e.my, Centers(so, Y)[1], Tol9)) THEN {"location"} ELSE {})
      \cup (IF Det(e.o.scale) /\ ~(CloseV(e.sx, Scales(so, e.X), Tol9) /\ Close(e.sy, Scales(so, Y)[1], Tol9)) THEN {"scale"} ELSE {})
      \cup (IF m.amb THEN {} ELSE
              (IF CloseMx(WDet(e.W, m), WDet(Transpose(m.W), m), Tol6) THEN {} ELSE {"weights"})
              \cup (IF CloseMx(e.P, Transpose(m.P), Tol6) THEN {} ELSE {"loadings"})
              \cup (IF CloseMx(e.T, Transpose(m.T), Tol6) THEN {} ELSE {"scores"})
              \cup (IF CloseVx(e.C, m.C, Tol6) THEN {} ELSE {"inner-relation"})
              \cup (IF Exhausted(m, e.h) THEN {} ELSE IF CloseVx(e.b, CoefScaled(m), Tol6) THEN {} ELSE {"scaled-coefficients"})
              \cup (IF Exhausted(m, e.h) THEN {} ELSE IF CloseMx(e.R, Rw(m), Tol5) THEN {} ELSE {"R-weights"})
              \cup (IF CloseV(e.xev, [q \in 1..e.h |-> XEv(m, q)], Tol6) THEN {} ELSE {"x-explained-variance"})
              \cup (IF CloseV(e.yev, [q \in 1..e.h |-> YEv(m, q)], Tol6) THEN {} ELSE {"y-explained-variance"})
              \cup (IF e.ret = SeqOfSet(m.ret) THEN {} ELSE {"retained-variables"}))
      \cup (IF CloseVx(e.coef, ba, Tol9) THEN {} ELSE {"coefficients-not-rescaled"})
      \cup (IF CloseS(e.icpt, ic, Tol9, ysc) THEN {} ELSE {"intercept"})
      \cup (IF CloseVS(e.fit, MapV(LAMBDA u : RAdd(u, e.icpt), yh), Tol9, ysc) THEN {} ELSE {"fitted"})
      \cup (IF CloseVS(e.res, VSub(e.y, e.fit), Tol9, ysc) THEN {} ELSE {"residuals"})

Fails(e) ==
   CASE e.ev = "comp" -> IF e.out # "ok" THEN Raised(e) ELSE IF ~ShapeOk(e) THEN {"shape"} ELSE CompFails(e)
     [] e.ev = "predict" ->
          IF e.out # "ok" THEN {"predict-raised"}
          ELSE IF ~IsVec(e.yp, Rows(e.X)) THEN {"predict-shape"}
          ELSE LET z == MapV(LAMBDA u : RAdd(u, e.icpt), MatVec(e.X, e.coef))
               IN IF CloseVS(e.yp, z, Tol9, RAdd(RAbs(e.icpt), RMul(MaxAbsM(e.X), MaxAbsV(e.coef)))) THEN {} ELSE {"predict"}
     [] e.ev = "transform" ->
          IF e.out # "ok" THEN {"transform-raised"}
          ELSE IF ~IsMat(e.Z, Rows(e.X), Cols(e.R)) THEN {"transform-shape"}
          ELSE IF CloseMx(e.Z, MatMul(Forward(e.mx, e.sx, e.X), e.R), Tol7) THEN {} ELSE {"transform"}
     [] e.ev = "train-transform" ->   \* transform of the training data returns the scores
          IF e.out # "ok" THEN {"transform-raised"}
          ELSE IF ~IsMat(e.Z, Rows(e.T), Cols(e.T)) THEN {"transform-shape"}
          ELSE IF st.amb \/ Exhausted(st, Len(st.W)) \/ (~e.strict /\ \E q \in 1..Len(st.rets) : st.rets[q] # st.rets[1]) THEN {}
          ELSE IF CloseMx(e.Z, e.T, Tol6) THEN {} ELSE {"transform-of-training-data-not-scores"}
     [] e.ev = "badwidth" -> IF e.out = "ok" THEN {"wrong-number-of-columns-accepted"} ELSE {}
     [] OTHER -> {"unknown-event"}

Empty == Start(<<>>, <<>>)
Init == s \in 1..Len(T) /\ i = 0 /\ st = Empty
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
              /\ st' = IF e.ev = "comp" /\ ShapeOk(e) THEN NewState(e) ELSE st
        /\ i' = i + 1 /\ s' = s
=============================================================================
