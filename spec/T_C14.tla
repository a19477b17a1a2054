------------------------------- MODULE T_C14 --------------------------------
(* Trace validation of projection pursuit: the reported directions drive the
   specification's extraction; every other attribute must follow.                   *)
EXTENDS Ppdire, Ask
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i
Fix(ix) == IF ix.kind = "capi" THEN [ix EXCEPT !.c = [ix.c EXCEPT !.options = {ix.c.options[k] : k \in 1..Len(ix.c.options)}]] ELSE ix
Obj(e, sq, t, ys) == Objective(Fix(e.ix), sq, t, ys)

Loc0(e) == IF e.o.center_data THEN Centers(e.so, e.X) ELSE ConstVec(Cols(e.X), Zero)
Sca0(e) == IF e.o.center_data THEN Scales(e.so, e.X) ELSE ConstVec(Cols(e.X), One)
Shape1(e) == LET n == Rows(e.X)
                 p == Cols(e.X)
             IN IsMat(e.W, p, e.h) /\ IsMat(e.P, p, e.h) /\ IsMat(e.R, p, e.h) /\ IsMat(e.T, n, e.h) /\ IsVec(e.loc, p) /\ IsVec(e.sca, p)
                /\ IsVec(e.xev, e.h) /\ IsVec(e.maxobj, e.h)
                /\ (\A k \in 1..e.h : \A j \in 1..p : IsFin(e.W[j][k]))
Shape2(e) == LET n == Rows(e.X)
                 p == Cols(e.X)
             IN IsMat(e.B, p, e.h) /\ IsMat(e.Bs, p, e.h) /\ IsVec(e.C, e.h) /\ IsVec(e.fit, n) /\ IsVec(e.res, n)
                /\ IsNum(e.icpt) /\ IsNum(e.icpts) /\ IsVec(e.crit, e.h) /\ IsNum(e.my) /\ IsNum(e.sy) /\ IsVec(e.yev, e.h)

Unit(e, t) == LET m == RMax(MaxAbsV(t), One) IN RPow(m, e.deg)
Optimal(e, st0, k, ys) ==      \* st0: state before the k-th extraction
   LET w == Col(e.W, k)
       t == MatVec(st0.E, w)
       v == Obj(e, e.o.square, t, ys)
       p == Cols(e.X)
       n == Num(Rows(e.X))
       c == MapV(LAMBDA u : RDiv(u, n), MatTVec(st0.E, ys))
       cc == MapV(LAMBDA u : RSub(u, Zero), c)
   IN CASE e.opt = "cov" ->       \* |cov(Ew, y)| is maximal for w proportional to E'y
             IF RLt(Norm(cc), Num("1/100")) THEN {}
             ELSE IF RLe(RMul(Num("995/1000"), Norm(cc)), RAbs(Dot(w, cc))) THEN {} ELSE {"direction-not-optimal"}
        [] e.opt = "gridcov" ->
             IF RLt(Norm(cc), Num("1/100")) THEN {}
             ELSE IF RLe(RMul(Num("97/100"), Norm(cc)), RAbs(Dot(w, cc))) THEN {} ELSE {"direction-not-optimal"}
        [] e.opt = "grid2" ->      \* two variables: the best of the grid
             IF \E a \in 0..(e.ndir - 1) : LET u == Obj(e, e.o.square, MatVec(st0.E, Direction(a, e.ndir)), ys)
                                           IN RLt(RAdd(v, RMul(Tol7, RAbs(v))), u)
             THEN {"not-the-best-grid-direction"} ELSE {}
        [] e.opt = "gridaxis" ->   \* at least as good as every single variable, up to the grid
             IF \E j \in 1..p : LET u == Obj(e, e.o.square, Col(st0.E, j), ys)
                                IN RLt(RAdd(v, RMul(Num("5/100"), RAbs(u))), u)
             THEN {"worse-than-a-single-variable"} ELSE {}
        [] e.opt = "gridvar" ->
             LET S == MatScale(RDiv(One, n), MatTMul(st0.E, st0.E))
             IN IF NumAbove(S, RMul(v, Num("6/5"))) > 0 THEN {"direction-not-optimal"} ELSE {}
        [] OTHER -> {}

\* the problem handed to the interior point solver for every component
Posed(e, Xs, ws, ys) ==
   IF ~e.ipopt THEN {}
   ELSE IF Len(e.solves) # e.h THEN {"number-of-optimisations"}
   ELSE UNION {LET sv == e.solves[k]
                   st == RunW(Start0(Xs), SubSeq(ws, 1, k - 1), 1)
                   p == Cols(Xs)
                   FObj(b) == RNeg(Obj(e, FALSE, MatVec(st.E, b), ys))
                   FCon(b) == <<RSub(Norm(b), One)>> \o (IF e.ucons = "none" THEN <<>> ELSE <<RAdd(b[1], b[p]), RMul(b[1], b[p])>>)
                   nc == IF e.ucons = "none" THEN 1 ELSE 3
               IN IF ~IsVec(sv.x0, p) THEN {"start-shape"}
                  ELSE (IF e.evolve \/ CloseVS(sv.x0, st.E[1], Tol7, RMax(One, MaxAbsM(Xs))) THEN {} ELSE {"start-not-first-case"})
                  \cup (IF e.evolve \/ OptionsOk(sv.options, e.opts, Zero) THEN {} ELSE {"solver-options"})
                  \cup (IF sv.m = nc /\ CloseV(sv.cl, ConstVec(nc, Zero), Tol12) /\ CloseV(sv.cu, ConstVec(nc, Zero), Tol12) THEN {} ELSE {"constraint-bounds"})
                  \cup (IF e.evolve THEN (IF \A j \in 1..p : RLe(sv.lb[j], RNeg(One)) /\ RLe(One, sv.ub[j]) THEN {} ELSE {"search-box-without-unit-sphere"})
                        ELSE IF sv.lb = "none" /\ sv.ub = "none" THEN {} ELSE {"constraint-bounds"})
                  \cup AskedAll(sv, FObj, FCon, "-posed")
                  \cup (IF CloseVS(ws[k], VScale(RDiv(One, Norm(sv.ret)), sv.ret), Tol9, One) THEN {} ELSE {"direction-not-the-solvers"})
               : k \in 1..e.h}

Fit1(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
       Xs == Forward(e.loc, e.sca, e.X)
       ws == [k \in 1..e.h |-> Col(e.W, k)]
       m == RunW(Start0(Xs), ws, 1)
       R == Rot(m.W, m.P, e.h)
       ys == IF e.two THEN Force([k \in 1..n |-> RDiv(RSub(e.y[k], e.my), Safe(e.sy))]) ELSE <<>>
       big == RAdd(MaxAbsM(e.X), One)
       tb == MaxAbsV(m.T[1])
   IN (IF CloseVS(e.loc, Loc0(e), Tol9, big) THEN {} ELSE {"location"})
      \cup (IF CloseVS(e.sca, Sca0(e), Tol9, big) THEN {} ELSE {"scale"})
      \cup (IF \A k \in 1..e.h : Close(Norm(ws[k]), One, Tol6) THEN {} ELSE {"direction-not-unit"})
      \cup (IF \A k \in 1..e.h : CloseVS(Col(e.T, k), m.T[k], Tol7, tb) THEN {} ELSE {"scores"})
      \cup (IF \A k \in 1..e.h : CloseVS(Col(e.P, k), m.P[k], Tol6, RMax(One, MaxAbsV(m.P[k]))) THEN {} ELSE {"loadings"})
      \cup (IF \A k \in 1..e.h : CloseVS(Col(e.R, k), R[k], Tol6, RMax(One, MaxAbsV(R[k]))) THEN {} ELSE {"rotations"})
      \cup (IF \A k \in 1..e.h : CloseS(e.xev[k], XEvOf(m.T[k], m.P[k], Xs), Tol7, One) THEN {} ELSE {"explained-variance"})
      \cup (IF \A k \in 1..e.h : LET v == Obj(e, e.o.square /\ e.o.grid, m.T[k], ys)
                                IN IsFin(v) => CloseS(e.maxobj[k], v, Tol6, Unit(e, m.T[k])) THEN {} ELSE {"optimised-objective"})
      \cup Posed(e, Xs, ws, ys)
      \cup (IF ~e.ipopt /\ e.ucons # "none" /\ ~(\A k \in 1..e.h : RLe(RAbs(RAdd(ws[k][1], ws[k][p])), Tol4)) THEN {"user-constraint-ignored"} ELSE {})
      \cup UNION {Optimal(e, RunW(Start0(Xs), SubSeq(ws, 1, k - 1), 1), k, ys) : k \in 1..e.h}
      \cup (IF ~e.two THEN {}
            ELSE LET CT(k) == Col(e.T, k)
                     Bk(k) == BScaled(R, e.C, k)
                     b == Col(e.B, e.h)
                     yh == MatVec(e.X, b)
                     d == VSub(e.y, yh)
                     ic == IF e.o.center = "mean" THEN TrimMean(d, e.o.trimming) ELSE Median(d)
                     ds == VSub(ys, MatVec(Xs, Col(e.Bs, e.h)))
                     ics == IF e.so.scale = "None" THEN ic ELSE IF e.o.center = "mean" THEN Mean(ds) ELSE Median(ds)
                     yb == RAdd(MaxAbsV(e.y), RMul(MaxAbsM(e.X), MaxAbsV(b)))
                     bb == RMax(One, MaxAbsM(e.Bs))
                     Y == ColMat(e.y)
                 IN (IF e.o.center_data THEN (IF CloseS(e.my, Centers(e.so, Y)[1], Tol9, yb) /\ Close(e.sy, Scales(e.so, Y)[1], Tol9) THEN {} ELSE {"y-location-scale"})
                     ELSE IF REq(e.my, Zero) /\ REq(e.sy, One) THEN {} ELSE {"y-location-scale"})
                    \cup (IF \A k \in 1..e.h : CASE e.o.regopt = "OLS" -> CloseS(e.C[k], Ols(CT(k), ys), Tol6, One)
                                                [] e.o.regopt = "robust" -> CloseS(e.C[k], e.crm[k], Tol6, One)
                                                [] e.o.regopt = "quantile" ->
                                                     \A q \in {q \in 1..n : ~RLe(RAbs(CT(k)[q]), Tol6)} :
                                                       RLe(CheckLoss(e.tau, VSub(ys, VScale(e.C[k], CT(k)))),
                                                           RMul(Num("1001/1000"), RAdd(Tol4, CheckLoss(e.tau, VSub(ys, VScale(RDiv(ys[q], CT(k)[q]), CT(k)))))))
                          THEN {} ELSE {"inner-relation:" \o e.o.regopt})
                    \cup (IF \A k \in 1..e.h : CloseVS(Col(e.Bs, k), Bk(k), Tol6, bb) THEN {} ELSE {"scaled-coefficients"})
                    \cup (IF \A k \in 1..e.h : \A j \in 1..p : CloseS(e.B[j][k], RMul(RDiv(Safe(e.sy), Safe(e.sca[j])), e.Bs[j][k]), Tol7, Zero) THEN {} ELSE {"coefficients-not-rescaled"})
                    \cup (IF CloseS(e.icpt, ic, Tol7, yb) THEN {} ELSE {"intercept"})
                    \cup (IF CloseS(e.icpts, ics, Tol7, RMax(yb, One)) THEN {} ELSE {"scaled-intercept"})
                    \cup (IF CloseVS(e.fit, MapV(LAMBDA u : RAdd(u, e.icpt), yh), Tol9, yb) THEN {} ELSE {"fitted"})
                    \cup (IF CloseVS(e.res, VSub(e.y, e.fit), Tol9, yb) THEN {} ELSE {"residuals"})
                    \cup (IF \A k \in 1..e.h : CloseS(e.yev[k], RDiv(RMul(Num(100), RMul(RSq(e.C[k]), Norm2(CT(k)))), Norm2(ys)), Tol6, One) THEN {} ELSE {"y-explained-variance"})
                    \cup (IF \A k \in 1..e.h : LET v == Obj(e, e.o.square, m.T[k], ys)
                                              IN IsFin(v) => CloseS(e.crit[k], v, Tol6, RMul(Unit(e, m.T[k]), Unit(e, m.T[k]))) THEN {} ELSE {"criterion-values"}))
      \cup (IF IsMat(e.mixing, e.h, p) THEN (IF CloseM(MatMul(e.mixing, e.W), Ident(e.h), Tol6) THEN {} ELSE {"mixing"}) ELSE IF e.mix THEN {"mixing"} ELSE {})
      \cup (IF e.sob THEN (IF CloseVS(e.soc, e.loc, Tol9, big) /\ CloseVS(e.sos, e.sca, Tol9, big) THEN {} ELSE {"scaling-object"}) ELSE {})

Fails(e) ==
   CASE e.ev = "fit" -> IF e.out # "ok" THEN {"fit-raised"} ELSE IF ~Shape1(e) \/ (e.two /\ ~Shape2(e)) THEN {"shape"} ELSE Fit1(e)
     [] e.ev = "predict" ->
          IF e.out # "ok" THEN {"predict-raised"}
          ELSE IF ~IsVec(e.yp, Rows(e.X)) THEN {"predict-shape"}
          ELSE LET z == MapV(LAMBDA u : RAdd(u, e.icpt), MatVec(e.X, e.b))
               IN IF CloseVS(e.yp, z, Tol9, RAdd(RAbs(e.icpt), RMul(MaxAbsM(e.X), MaxAbsV(e.b)))) THEN {} ELSE {"predict"}
     [] e.ev = "transform" ->
          IF e.out # "ok" THEN {"transform-raised"}
          ELSE IF ~IsMat(e.Z, Rows(e.X), Cols(e.R)) THEN {"transform-shape"}
          ELSE IF CloseMx(e.Z, MatMul(Forward(e.loc, e.sca, e.X), e.R), Tol7) THEN {} ELSE {"transform"}
     [] e.ev = "train-transform" ->
          IF e.out # "ok" THEN {"transform-raised"}
          ELSE IF ~IsMat(e.Z, Rows(e.T), Cols(e.T)) THEN {"transform-shape"}
          ELSE IF CloseMx(e.Z, e.T, Tol6) THEN {} ELSE {"transform-of-training-data-not-scores"}
     [] e.ev = "whiten" -> IF e.out = "ok" THEN {} ELSE {"whitening-raised"}
     [] e.ev = "compressed" -> IF e.out = "ok" /\ CloseMx(e.Z, e.T, Tol6) THEN {} ELSE {"compression-inconsistent"}
     [] e.ev = "rejected" -> IF e.out = "ok" THEN {"invalid-call-accepted"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"arguments-changed"}
     [] e.ev = "params" -> IF e.same THEN {} ELSE {"parameters-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
