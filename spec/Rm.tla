-------------------------------- MODULE Rm ----------------------------------
(* Robust M regression as a transition system.

   o = [fun, p1, p2, p3, centre, scale, mode, tol];  scl = [mx, sx, my, sy] are
   the location and scale estimates of the predictors and the predictand.

   State: the coefficient vector b (in scaled units).  Initial step: weighted
   least squares with starting weights; later steps: re-weight with the scaled
   residuals of the present b and solve again.                                   *)
EXTENDS Scaler, Weights, Quant

K14826 == Num("1.4826")
Floor6 == Num("1/1000000")

CutsY(o) == <<NormQ(o.p1), NormQ(o.p2), NormQ(o.p3)>>
CutsX(o, p) == IF o.mode = "specific" THEN <<Chi2Q(o.p1, p), Chi2Q(o.p2, p), Chi2Q(o.p3, p)>> ELSE CutsY(o)
Wv(o, cuts, v) == Force([k \in 1..Len(v) |-> W(o.fun, v[k], cuts[1], cuts[2], cuts[3])])

Xs(X, scl) == Forward(scl.mx, scl.sx, X)
Ys(y, scl) == Force([k \in 1..Len(y) |-> RDiv(RSub(y[k], scl.my), Safe(scl.sy))])

\* case weights in predictor space: distance to the centre over its median
LevW(o, XS) == LET d == Force([k \in 1..Rows(XS) |-> Norm(XS[k])])
                   m == Median(d)
               IN Wv(o, CutsX(o, Cols(XS)), Force([k \in 1..Len(d) |-> RDiv(d[k], m)]))
StartYW(o, y, YS) ==
   Wv(o, CutsY(o),
      IF o.centre = "median" /\ o.scale = "mad" THEN MapV(LAMBDA u : RAbs(u), YS)
      ELSE LET m == Median(y)
               a == MapV(LAMBDA u : RAbs(RSub(u, m)), y)
               sc == RMul(K14826, Median(a))
           IN MapV(LAMBDA u : RDiv(u, sc), a))
Floored(w) == MapV(LAMBDA u : RMax(u, Floor6), w)
Solve1(XS, YS, w) ==
   LET XW == Force([k \in 1..Rows(XS) |-> VScale(w[k], XS[k])])
   IN Solve(MatTMul(XS, XW), MatTVec(XW, YS))
\* a variable that is zero throughout gets coefficient zero (least squares of minimal norm)
Wls(XS, YS, w) ==
   LET nz == {j \in 1..Cols(XS) : \E k \in 1..Rows(XS) : ~REq(XS[k][j], Zero)}
       sq == SeqOfSet(nz)
       b  == IF nz = 1..Cols(XS) THEN Solve1(XS, YS, w) ELSE Solve1(ColsOf(XS, sq), YS, w)
   IN IF nz = 1..Cols(XS) THEN b
      ELSE Force([j \in 1..Cols(XS) |-> IF j \in nz THEN b[Cardinality({l \in nz : l <= j})] ELSE Zero])

\* spread of absolute residuals; when half of the cases fit exactly, of those that do not
Spread(a) == LET nz == SelectSeq(a, LAMBDA u : ~REq(u, Zero))
             IN RMul(K14826, Median(IF 2 * Len(nz) > Len(a) THEN a ELSE nz))
\* residual weights at b
ResW(o, XS, YS, b) ==
   LET a == MapV(LAMBDA u : RAbs(u), VSub(YS, MatVec(XS, b)))
       sc == Spread(a)
   IN Wv(o, CutsY(o), MapV(LAMBDA u : RDiv(u, sc), a))
CaseW(o, XS, YS, b) == VMul(ResW(o, XS, YS, b), LevW(o, XS))

FirstB(o, XS, y, YS) == Wls(XS, YS, Floored(VMul(LevW(o, XS), StartYW(o, y, YS))))
NextB(o, XS, YS, b)  == Wls(XS, YS, Floored(CaseW(o, XS, YS, b)))
TooFew(o, XS, YS, b) == LET w == CaseW(o, XS, YS, b)
                        IN 2 * Cardinality({k \in 1..Len(w) : RLt(w[k], Floor6)}) >= Len(w)
\* relative change of |b|^2; before the first step the reference is 1e-5
Change(b, prevsq) == RDiv(RAbs(RSub(Norm2(b), prevsq)), prevsq)

Rescaled(b, scl) == Force([j \in 1..Len(b) |-> RMul(RDiv(Safe(scl.sy), Safe(scl.sx[j])), b[j])])
\* intercept: centre of y - X b
Centre1(o, v) == IF o.centre = "mean" THEN Mean(v) ELSE Median(v)
=============================================================================
