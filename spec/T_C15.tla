------------------------------- MODULE T_C15 --------------------------------
(* Trace validation of sufficient dimension reduction by spectral methods.          *)
EXTENDS Sdr
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

Fit(e) ==
   LET X == e.X
       n == Rows(X)
       p == Cols(X)
       mean == ColMeans(X)
       mu == IF e.center_data THEN mean ELSE ConstVec(p, Zero)
       G == IF e.scale_data THEN Cov1(X) ELSE Ident(p)
       SS == IF e.meth \in {"phd", "iht"} THEN {1..n} ELSE Slices(e.y, e.slices, e.discrete)
       K == Kernel(e.meth, X, e.y, SS, mu, G)
       loc == Force([j \in 1..p |-> IF e.center = "mean" THEN TrimMean(Col(X, j), e.trim) ELSE Median(Col(X, j))])
       sca == Force([j \in 1..p |-> IF e.center = "mean" THEN RSqrt(Cov1(X)[j][j]) ELSE IF e.scale_data THEN Mad(Col(X, j)) ELSE One])
   IN IF ~(IsMat(e.P, p, e.d) /\ IsMat(e.T, n, e.d) /\ IsMat(e.proj, p, p)) THEN {"shape"}
      ELSE Leading(e.P, K, G, Tol6)
      \cup (IF CloseMx(e.T, MatMul(X, e.P), Tol9) THEN {} ELSE {"scores"})
      \cup (IF CloseM(e.proj, ProjOn(e.P), Tol6) THEN {} ELSE {"projection-matrix"})
      \cup (IF e.center_data /\ ~(IsVec(e.loc, p) /\ CloseV(e.loc, loc, Tol9)) THEN {"location"} ELSE {})
      \cup (IF e.center_data /\ ~(IsVec(e.sca, p) /\ CloseV(e.sca, sca, Tol9)) THEN {"scale"} ELSE {})
      \cup (IF e.center_data /\ ~(IsNum(e.yloc) /\ Close(e.yloc, Mean(e.y), Tol9)) THEN {"response-location"} ELSE {})
      \cup (IF e.center_data /\ ~(IsNum(e.ysca) /\ Close(e.ysca, Std0(e.y), Tol9)) THEN {"response-scale"} ELSE {})

\* bootstrap estimate of the dimension: fits = <<[X, y, k, proj], ...>>
Pairs(X, y) == {<<X[q], y[q]>> : q \in 1..Len(X)}
\* every model compared is the one the options ask for, on its own sample
Model(e, f) ==
   LET p == Cols(f.X)
       mu == IF e.center_data THEN ColMeans(f.X) ELSE ConstVec(p, Zero)
       G == IF e.scale_data THEN Cov1(f.X) ELSE Ident(p)
       SS == IF e.meth \in {"phd", "iht"} THEN {1..Rows(f.X)} ELSE Slices(f.y, e.slices, e.discrete)
   IN (IF f.center = e.center THEN {} ELSE {"center-option"})
      \cup (IF IsMat(f.P, p, f.k) THEN Leading(f.P, Kernel(e.meth, f.X, f.y, SS, mu, G), G, Tol6) ELSE {"shape"})
StructDim(e) ==
   LET p == Cols(e.X)
       all == Pairs(e.X, e.y)
       full == {q \in 1..Len(e.fits) : e.fits[q].X = e.X /\ e.fits[q].y = e.y}
       boot(k) == {q \in 1..Len(e.fits) : e.fits[q].k = k} \ full
       ref(k) == e.fits[CHOOSE q \in full : e.fits[q].k = k].proj
       dist(k) == [q \in boot(k) |-> SpecNorm(MatSub(ref(k), e.fits[q].proj))]
       mean(k) == LET b == SeqOfSet(boot(k)) IN RDiv(RSum(Force([q \in 1..Len(b) |-> dist(k)[b[q]]])), Num(Len(b)))
   IN IF \E q \in 1..Len(e.fits) : Len(e.fits[q].X) # Len(e.X) \/ Len(e.fits[q].y) # Len(e.X) THEN {"bootstrap-size"}
      ELSE IF \E q \in 1..Len(e.fits) : ~(Pairs(e.fits[q].X, e.fits[q].y) \subseteq all) THEN {"bootstrap-breaks-pairs"}
      ELSE IF \E k \in 1..p : (\A q \in full : e.fits[q].k # k) \/ Cardinality(boot(k)) # e.B THEN {"bootstrap-replications"}
      ELSE IF ~IsVec(e.diff, p) THEN {"differences-shape"}
      ELSE (IF \A k \in 1..p : CloseS(e.diff[k], mean(k), Tol6, One) THEN {} ELSE {"mean-differences"})
      \cup UNION {Model(e, e.fits[q]) : q \in 1..Len(e.fits)}
      \cup (IF e.h \in 1..p /\ \A k \in 1..(p - 1) : RLe(e.diff[e.h], RAdd(e.diff[k], Tol9)) /\ e.h < p THEN {} ELSE {"dimension-not-least-variable"})

Fails(e) ==
   CASE e.ev = "fit" -> IF e.out # "ok" THEN {"fit-raised"} ELSE Fit(e)
     [] e.ev = "transform" -> IF e.out # "ok" THEN {"transform-raised"}
                              ELSE IF ~IsMat(e.Z, Rows(e.Xn), Cols(e.P)) THEN {"transform-shape"}
                              ELSE IF CloseMx(e.Z, MatMul(e.Xn, e.P), Tol9) THEN {} ELSE {"transform"}
     [] e.ev = "predict" -> IF e.out # "ok" THEN {"predict-raised"}
                            ELSE IF ~IsVec(e.yp, Rows(e.Xn)) THEN {"predict-shape"}
                            ELSE IF CloseVS(e.yp, OlsPredict(OlsFit(MatMul(e.X, e.P), e.y), MatMul(e.Xn, e.P)), Tol6, MaxAbsV(e.y)) THEN {} ELSE {"predict"}
     [] e.ev = "dim" -> IF e.out # "ok" THEN {"dimension-raised"} ELSE StructDim(e)
     [] e.ev = "works" -> IF e.out = "ok" /\ e.consistent THEN {} ELSE {"documented-option-inconsistent"}
     [] e.ev = "rejected" -> IF e.out = "ok" THEN {"invalid-call-accepted"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"arguments-changed"}
     [] e.ev = "params" -> IF e.same THEN {} ELSE {"parameters-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
