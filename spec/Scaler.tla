------------------------------- MODULE Scaler -------------------------------
(* The versatile scaler: column location and scale estimates, and the affine
   map built from them.

   An option is a record [center, scale, trimming].  Estimates that need an
   iterative optimiser (l1median, kstepLTS) are specified in Location.tla.     *)
EXTENDS Stats

CenterOf(opt, trim, v) ==
   CASE opt = "None"   -> Zero
     [] opt = "mean"   -> IF REq(trim, Zero) THEN NanMean(v) ELSE TrimMean(v, trim)
     [] opt = "median" -> NanMedian(v)

(* Tau estimator of scale (Maronna and Zamar) of one variable, tuning constants
   4.5 and 3, with the consistency factor for the normal distribution.          *)
Tau2Es2(c2) == CASE REq(c2, Two) -> Num("0.7120726546874494")
                 [] REq(c2, Num(3)) -> Num("0.9247153921761315")
                 [] REq(c2, Num(4)) -> Num("0.9872648548200651")
\* correction: "no", "yes" (normal consistency) or "finite" (n - 2 degrees of freedom)
Tau2Of(c1, c2, corr, v0) ==
   LET v  == Obs(v0)
       n  == Len(v0)
       m  == Median(v)
       s0 == Median(Force([i \in 1..Len(v) |-> RAbs(RSub(v[i], m))]))
       w  == Force([i \in 1..Len(v) |->
                LET u == RDiv(RAbs(RSub(v[i], m)), RMul(s0, c1))
                    a == RSub(One, RSq(u))
                IN IF RLt(Zero, a) THEN RSq(a) ELSE Zero])
       mu == IF REq(c1, Zero) THEN m ELSE RDiv(Dot(v, w), RSum(w))
       rho == Force([i \in 1..Len(v) |-> RMin(RSq(RDiv(RSub(v[i], mu), s0)), RSq(c2))])
       den == CASE corr = "no" -> Num(n) [] corr = "yes" -> RMul(Num(n), Tau2Es2(c2)) [] corr = "finite" -> RMul(Num(n - 2), Tau2Es2(c2))
   IN RMul(s0, RSqrt(RDiv(RSum(rho), den)))
Tau2(v) == Tau2Of(Num("9/2"), Num(3), "yes", v)

ScaleOf(opt, trim, v) ==
   CASE opt = "None" -> One
     [] opt = "std"  -> IF REq(trim, Zero) THEN Std0(v) ELSE TrimStd(v, trim)
     [] opt = "mad"  -> Mad(v)
     [] opt = "scaleTau2" -> Tau2(v)

Centers(o, X) == Force([j \in 1..Cols(X) |-> CenterOf(o.center, o.trimming, Col(X, j))])
Scales(o, X)  == Force([j \in 1..Cols(X) |-> ScaleOf(o.scale, o.trimming, Col(X, j))])

\* a zero scale is replaced by one
Safe(s) == IF REq(s, Zero) THEN One ELSE s

Forward(c, s, X)  == Force([i \in 1..Rows(X) |-> [j \in 1..Cols(X) |->
                        RDiv(RSub(X[i][j], c[j]), Safe(s[j]))]])
Backward(c, s, Z) == Force([i \in 1..Rows(Z) |-> [j \in 1..Cols(Z) |->
                        RAdd(RMul(Z[i][j], Safe(s[j])), c[j])]])
=============================================================================
