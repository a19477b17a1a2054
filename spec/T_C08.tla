------------------------------- MODULE T_C08 --------------------------------
(* Trace validation of sparse partial robust M regression.  The k-th "run" event of
   a session is the complete model of the run stopped after k re-weightings; the
   state holds the case weights of the previous event.  Estimates of location and
   scale that need an optimiser, and singular vectors, come with the event as
   witnesses and are certified here (or in C01/C03) before they are used.          *)
EXTENDS Sprm
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, st

Scl(e) == [mx |-> e.mx, sx |-> e.sx, my |-> e.my, sy |-> e.sy]
Det(c) == c \in {"None", "mean", "median", "std", "mad"}
EstFails(o, X, m, v, tag) ==
   LET so == [center |-> o.centre, scale |-> o.scale, trimming |-> Zero]
   IN (IF Det(o.centre) /\ ~CloseVS(m, Centers(so, X), Tol9, MaxAbsM(X)) THEN {tag \o "location"} ELSE {})
      \cup (IF Det(o.scale) /\ ~CloseV(v, Scales(so, X), Tol9) THEN {tag \o "scale"} ELSE {})

\* certificate of the leading left singular vectors U (n x q) with squared singular values ev
SvdOk(e, XS) ==
   LET q == Len(e.sv)
       rc == Cols(e.U)
       tr == RSum(Force([k \in 1..Rows(XS) |-> Norm2(XS[k])]))
       G == MatMul(XS, Transpose(XS))
   IN /\ CloseR(RSum(e.sv), tr, Tol9)
      /\ \A j \in 1..(q - 1) : RLe(e.sv[j + 1], e.sv[j])
      /\ CloseM(MatTMul(e.U, e.U), Ident(rc), Tol9)
      /\ \A j \in 1..rc : LET u == Col(e.U, j) IN CloseVS(MatVec(G, u), VScale(e.sv[j], u), Tol9, tr)

StartCands(e, XS, YS) ==       \* admissible starting weights
   LET pc == e.o.init = "pcapp"
       rc == IF pc THEN RelComp(e.sv) ELSE Cols(XS)
       Z  == IF pc THEN Forward(e.mu, e.su, e.U) ELSE XS
       wx == DistW(e.o, Cuts0(e.o, rc), Z)
       wy == StartYW(e.o, e.y, YS)
       signed == ~(e.o.centre = "median" /\ e.o.scale = "mad") /\ e.o.fun # "Fair"
   IN <<Floored(VMul(wx, wy))>> \o (IF signed /\ ~e.strict THEN <<Floored(VMul(wx, SignedYW(e.o, e.y)))>> ELSE <<>>)

Rc(e, XS) == IF e.o.init = "pcapp" THEN RelComp(e.sv) ELSE Cols(XS)

ModelFails(e, m) ==
   IF m.st.amb THEN {} ELSE
      (IF CloseVx(e.b, m.b, Tol6) THEN {} ELSE {"scaled-coefficients"})
      \cup (IF CloseMx(WDet(e.W, m.st), WDet(Transpose(m.st.W), m.st), Tol6) THEN {} ELSE {"weights"})
      \cup (IF CloseMx(e.P, Transpose(m.st.P), Tol6) THEN {} ELSE {"loadings"})
      \cup (IF CloseMx(e.R, Rw(m.st), Tol5) THEN {} ELSE {"R-weights"})
      \cup (IF CloseVx(e.C, m.st.C, Tol6) THEN {} ELSE {"inner-relation"})
      \cup (IF CloseV(e.xev, [q \in 1..e.o.h |-> XEv(m.st, q)], Tol6) THEN {} ELSE {"x-explained-variance"})
      \cup (IF CloseV(e.yev, [q \in 1..e.o.h |-> YEv(m.st, q)], Tol6) THEN {} ELSE {"y-explained-variance"})
      \cup (IF e.ret = RowsOf(Kept(e.sx), SeqOfSet(m.st.ret)) THEN {} ELSE {"retained-variables"})

WeightFails(e, m, XS, YS) ==
   LET n  == Rows(XS)
       TM == TW(m)
       z  == Forward(e.mt, e.st, TM)
       tw == DistW(e.o, CutsT(e.o, Rc(e, XS)), z)
       yw == YW(e.o, YS, m)
       cw == VMul(tw, yw)
       sure == {k \in 1..n : RLt(Tol9, RAbs(RSub(cw[k], Floor6)))}
       dead == {k \in 1..n : RLt(cw[k], Floor6)}
       so == [centre |-> e.o.centre, scale |-> TScale(e.o)]
   IN IF m.st.amb THEN {} ELSE
      EstFails(so, TM, e.mt, e.st, "score-")
      \cup {"case-weight" : k \in {k \in sure : ~Close(e.w[k], IF k \in dead THEN Zero ELSE cw[k], Tol6)}}
      \cup {"x-case-weight" : k \in {k \in sure : ~Close(e.wx[k], IF k \in dead THEN Zero ELSE tw[k], Tol6)}}
      \cup {"y-case-weight" : k \in {k \in sure : ~Close(e.wy[k], IF k \in dead THEN Zero ELSE yw[k], Tol6)}}

Change1(b, prevsq) == RDiv(RAbs(RSub(Norm2(b), prevsq)), prevsq)
TooFewDead(w) == 2 * Cardinality({k \in 1..Len(w) : REq(w[k], Zero)}) >= Len(w)
\* did the run of the previous event stop by itself?  "yes", "no", "unsure"
Halted(e) ==
   IF st.k = 0 THEN "no"
   ELSE IF st.halted # "no" THEN st.halted
   ELSE IF TooFewDead(st.w) THEN "yes"
   ELSE LET ch == Change1(st.b, st.prevsq)
        IN IF RLe(RAbs(RSub(ch, e.o.tol)), RMul(Tol6, e.o.tol)) THEN "unsure"
           ELSE IF RLe(ch, e.o.tol) THEN "yes" ELSE "no"

Linear(e) ==     \* the relations between the reported quantities
   LET XK == ColsOf(e.X, Kept(e.sx))
       sxk == RowsOf(e.sx, Kept(e.sx))
       ba == Force([j \in 1..Len(e.b) |-> RMul(RDiv(Safe(e.sy), sxk[j]), e.b[j])])
       yh == MatVec(XK, e.coef)
       d  == VSub(e.y, yh)
       XS == XsK(e.X, Scl(e))
       YS == Ys(e.y, Scl(e))
       ic == CASE e.o.centre = "mean" -> Mean(d) [] e.o.centre = "None" -> Zero [] OTHER -> Median(d)
       ds == VSub(YS, MatVec(XS, e.b))
       ysc == RAdd(MaxAbsV(e.y), RMul(MaxAbsM(e.X), MaxAbsV(e.coef)))
   IN (IF CloseVx(e.coef, ba, Tol9) THEN {} ELSE {"coefficients-not-rescaled"})
      \cup (IF CloseS(e.icpt, ic, Tol9, ysc) THEN {} ELSE {"intercept"})
      \cup (IF e.o.scale = "None" \/ e.o.centre = "None" \/ CloseS(e.b0, IF e.o.centre = "mean" THEN Mean(ds) ELSE Median(ds), Tol9, MaxAbsV(YS))
            THEN {} ELSE {"scaled-intercept"})
      \cup (IF CloseVS(e.fit, MapV(LAMBDA u : RAdd(u, e.icpt), yh), Tol9, ysc) THEN {} ELSE {"fitted"})
      \cup (IF CloseVS(e.res, VSub(e.y, e.fit), Tol9, ysc) THEN {} ELSE {"residuals"})
      \cup (IF CloseMx(e.T, MatMul(XS, e.R), Tol7) THEN {} ELSE {"scores"})
      \cup (IF \A k \in 1..Len(e.w) : RLe(Zero, e.w[k]) /\ RLe(e.w[k], One) THEN {} ELSE {"weight-out-of-range"})

ShapeOk(e) == LET n == Rows(e.X)
                  p == Len(Kept(e.sx))
                  h == e.o.h
              IN IsVec(e.b, p) /\ IsVec(e.coef, p) /\ IsMat(e.W, p, h) /\ IsMat(e.P, p, h) /\ IsMat(e.R, p, h) /\ IsMat(e.T, n, h)
                 /\ IsVec(e.C, h) /\ IsVec(e.xev, h) /\ IsVec(e.yev, h) /\ IsVec(e.w, n) /\ IsVec(e.wx, n) /\ IsVec(e.wy, n)
                 /\ IsVec(e.fit, n) /\ IsVec(e.res, n) /\ IsNum(e.icpt) /\ IsNum(e.b0)
                 /\ AllFinV(e.b) /\ AllFinV(e.w)

RunFails(e) ==
   LET XS == XsK(e.X, Scl(e))
       YS == Ys(e.y, Scl(e))
       est == EstFails(e.o, e.X, e.mx, e.sx, "x-") \cup EstFails(e.o, ColMat(e.y), <<e.my>>, <<e.sy>>, "y-")
       hl == Halted(e)
   IN est \cup Linear(e) \cup
      (IF hl = "yes" THEN (IF CloseVx(e.b, st.b, Tol9) /\ CloseV(e.w, st.w, Tol9) THEN {} ELSE {"iteration-after-convergence"})
       ELSE IF hl = "unsure" THEN {}
       ELSE IF st.k = 0 THEN
          (IF e.o.init = "pcapp" /\ ~SvdOk(e, XS) THEN {"witness-not-certified"}
           ELSE IF e.o.init = "pcapp" /\ ~(RelCompSure(e.sv)) THEN {}
           ELSE LET cands == StartCands(e, XS, YS)
                    ms == [q \in 1..Len(cands) |-> Fit(e.o, XS, YS, cands[q])]
                    good == {q \in 1..Len(cands) : ms[q].st.amb \/ CloseVx(e.b, ms[q].b, Tol6)}
                IN IF good = {} THEN {"first-fit"}
                   ELSE LET q == CHOOSE q \in good : \A r \in good : q <= r
                        IN ModelFails(e, ms[q]) \cup WeightFails(e, ms[q], XS, YS))
       ELSE LET m == Fit(e.o, XS, YS, Floored(st.w)) IN ModelFails(e, m) \cup WeightFails(e, m, XS, YS))

\* scaleTau2 is not defined for a variable half of whose values agree: the mad takes its place
NoTau(X) == \E j \in 1..Cols(X) : REq(Median(Force([k \in 1..Rows(X) |-> RAbs(RSub(X[k][j], Median(Col(X, j))))])), Zero)
Effective(e) == IF e.ev \in {"run", "weightnew"}
                THEN IF e.o.scale = "scaleTau2" /\ NoTau(IF e.ev = "run" THEN e.X ELSE e.X0) THEN [e EXCEPT !.o.scale = "mad"] ELSE e
                ELSE e

Fails(e) ==
   CASE e.ev = "run" -> IF e.out # "ok" THEN {"fit-raised"}
                        ELSE IF ~(IsVec(e.mx, Cols(e.X)) /\ IsVec(e.sx, Cols(e.X))) THEN {"shape"}
                        ELSE IF ~ShapeOk(e) THEN {"shape"} ELSE RunFails(e)
     [] e.ev = "predict" ->
          IF e.out # "ok" THEN {"predict-raised"}
          ELSE IF ~IsVec(e.yp, Rows(e.X)) THEN {"predict-shape"}
          ELSE LET z == MapV(LAMBDA u : RAdd(u, e.icpt), MatVec(ColsOf(e.X, Kept(e.sx)), e.coef))
               IN IF CloseVS(e.yp, z, Tol9, RAdd(RAbs(e.icpt), RMul(MaxAbsM(e.X), MaxAbsV(e.coef)))) THEN {} ELSE {"predict"}
     [] e.ev = "transform" ->
          IF e.out # "ok" THEN {"transform-raised"}
          ELSE IF ~IsMat(e.Z, Rows(e.X), Cols(e.R)) THEN {"transform-shape"}
          ELSE IF CloseMx(e.Z, MatMul(XsK(e.X, Scl(e)), e.R), Tol7) THEN {} ELSE {"transform"}
     [] e.ev = "weightnew" ->     \* weights of a batch of new cases in its own score space
          IF e.out # "ok" THEN {"weightnewx-raised"}
          ELSE IF ~IsVec(e.w, Rows(e.X)) THEN {"weightnewx-shape"}
          ELSE LET Z == MatMul(XsK(e.X, Scl(e)), e.R)
                   so == [centre |-> e.o.centre, scale |-> TScale(e.o)]
                   rc == IF e.o.init = "pcapp" THEN RelComp(e.sv0) ELSE Len(Kept(e.sx))
               IN EstFails(so, Z, e.mt, e.st, "score-")
                  \cup (IF CloseV(e.w, DistW(e.o, CutsT(e.o, rc), Forward(e.mt, e.st, Z)), Tol6) THEN {} ELSE {"weightnewx"})
     [] e.ev = "valscore" ->
          IF e.out # "ok" THEN {"valscore-raised"}
          ELSE LET m == Mean(e.y)
                   r2 == RSub(One, RDiv(Norm2(VSub(e.y, e.yp)), Norm2(MapV(LAMBDA u : RSub(u, m), e.y))))
               IN IF Close(e.val, r2, Tol7) THEN {} ELSE {"valscore"}
     [] e.ev = "valscore-weighted" -> IF e.out # "ok" THEN {"weighted-valscore-raised"} ELSE {}
     [] e.ev = "single-weight" -> IF e.out = "ok" /\ IsVec(e.w, 1) /\ IsFin(e.w[1]) THEN {} ELSE {"single-case-weight-not-a-number"}
     [] e.ev = "converged" ->
          IF e.out # "ok" THEN {"fit-raised"}
          ELSE IF st.halted = "no" \/ CloseVx(e.b, st.b, Tol6) THEN {} ELSE {"converged-model-differs"}
     [] e.ev = "badwidth" -> IF e.out = "ok" THEN {"wrong-number-of-columns-accepted"} ELSE {}
     [] OTHER -> {"unknown-event"}

Step(e) ==
   IF e.ev = "run" /\ e.out = "ok" /\ IsVec(e.mx, Cols(e.X)) /\ IsVec(e.sx, Cols(e.X)) /\ ShapeOk(e)
   THEN [k |-> st.k + 1, w |-> e.w, b |-> e.b,
         prevsq |-> IF st.k = 0 THEN Num("1/100000") ELSE Norm2(st.b), halted |-> Halted(e)]
   ELSE st

Init == s \in 1..Len(T) /\ i = 0 /\ st = [k |-> 0, w |-> <<>>, b |-> <<>>, prevsq |-> Zero, halted |-> "no"]
Next == /\ i < Len(T[s].events)
        /\ LET e == Effective(T[s].events[i + 1])
               bad == Fails(e)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
              /\ st' = Step(e)
        /\ i' = i + 1 /\ s' = s
=============================================================================
