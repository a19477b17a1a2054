------------------------------ MODULE Moments -------------------------------
(* Product-moment statistics of one or two variables.
   o = [mode, center, trim, bias, order, option, alpha4, std, fisher], alpha4 = 4 * alpha
   for the continuum coefficient (a multiple of 1/2).                             *)
EXTENDS Stats

RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN One ELSE IF k < 0 THEN RDiv(One, RPow(x, -k)) ELSE RMul(x, RPow(x, k - 1))

Loc(center, t, v) == IF center = "median" THEN Median(v) ELSE IF REq(t, Zero) THEN Mean(v) ELSE TrimMean(v, t)
\* effective sample size after trimming
NTrim(n, t) == RFloor(RAdd(RMul(Num(n), RSub(One, t)), Num("1/2")))
\* small sample factor of an order-k moment
RECURSIVE Falling(_, _, _)
Falling(nt, a, b) == IF a > b THEN One ELSE RMul(Num(nt - a), Falling(nt, a + 1, b))
Factor(nt, k) == RDiv(Num(nt), Falling(nt, IF k - 2 > 1 THEN k - 2 ELSE 1, k - 1))

Centred(center, t, v) == LET m == Loc(center, IF center = "median" THEN Zero ELSE t, v) IN MapV(LAMBDA u : RSub(u, m), v)
\* co-moment of order a+b with powers a on x and b on y
CoMom(center, t, bias, a, b, x, y) ==
   LET k  == a + b
       xc == Centred(center, t, x)
       yc == Centred(center, t, y)
       pr == Force([q \in 1..Len(x) |-> RMul(RPow(xc[q], a), RPow(yc[q], b))])
   IN IF center = "median"
      THEN IF x = y THEN RMul(IF k = 2 THEN Num("1.4826") ELSE One, Median(MapV(LAMBDA u : RAbs(u), xc)))
           ELSE Median(pr)
      ELSE RMul(Loc(center, t, pr), IF bias THEN Factor(NTrim(Len(x), t), k) ELSE One)

ForcedMean(mode) == mode \in {"std", "skew", "kurt", "cos", "M3", "cok"}
OrderOf(o) == CASE o.mode \in {"var", "std", "cov"} -> 2 [] o.mode \in {"skew", "cos", "M3"} -> 3
                [] o.mode \in {"kurt", "cok"} -> 4 [] OTHER -> o.order
NeedsY(mode) == mode \in {"com", "cov", "cos", "cok", "M3", "corr", "continuum"}

Moment(o, x, y) ==
   LET c  == IF ForcedMean(o.mode) THEN "mean" ELSE o.center
       k  == OrderOf(o)
       b  == IF k > 2 THEN o.option ELSE 1
       a  == IF k > 2 THEN k - o.option ELSE 1
       nt == NTrim(Len(x), o.trim)
       N  == Num(nt)
       V(v, bias) == CoMom(c, o.trim, bias, 1, 1, v, v)
       M(bias)    == CoMom(c, o.trim, bias, a, b, x, x)
       C(bias)    == CoMom(c, o.trim, bias, a, b, x, y)
       big        == IF o.bias /\ c = "mean" /\ k > 2 THEN N ELSE One
       m2         == V(x, FALSE)
       exc        == RDiv(RMul(Num(3), RSq(RSub(N, One))), RMul(RSub(N, Two), RSub(N, Num(3))))
   IN CASE o.mode \in {"mom", "var"} -> IF k = 1 THEN Loc(c, o.trim, x) ELSE RMul(big, M(o.bias))
        [] o.mode = "std"  -> RSqrt(M(o.bias))
        [] o.mode = "skew" -> LET g == RDiv(M(FALSE), RMul(m2, RSqrt(m2)))
                              IN IF o.bias THEN RDiv(RMul(g, RSqrt(RMul(N, RSub(N, One)))), RSub(N, Two)) ELSE g
        [] o.mode = "kurt" -> LET g == RDiv(M(FALSE), RSq(m2))
                                  e == RSub(RDiv(RMul(g, RSub(RSq(N), One)), RMul(RSub(N, Two), RSub(N, Num(3)))), exc)
                              IN IF ~o.bias THEN g ELSE IF o.fisher THEN e ELSE RAdd(e, Num(3))
        [] o.mode \in {"com", "cov", "M3"} -> IF k = 1 THEN Loc(c, o.trim, x) ELSE RMul(big, C(o.bias))
        [] o.mode = "cos" -> LET g == RMul(big, C(o.bias))
                             IN IF ~o.std THEN g
                                ELSE RDiv(g, RMul(RPow(RSqrt(V(x, o.bias)), a), RPow(RSqrt(V(y, o.bias)), b)))
        [] o.mode = "cok" -> LET f == IF o.bias THEN RDiv(RSub(RSq(N), One), RMul(RSub(N, Two), RSub(N, Num(3)))) ELSE One
                                 g == RMul(f, C(FALSE))
                             IN IF ~o.std THEN RMul(big, C(o.bias))     \* the plain co-moment
                                ELSE RAdd(RSub(RDiv(g, RMul(RPow(RSqrt(V(x, FALSE)), a), RPow(RSqrt(V(y, FALSE)), b))),
                                               IF o.bias THEN exc ELSE Zero),
                                          IF o.fisher THEN Zero ELSE Num(3))
        [] o.mode = "corr" -> RDiv(C(o.bias), RMul(RSqrt(V(x, o.bias)), RSqrt(V(y, o.bias))))
        [] o.mode = "continuum" -> RMul(RSq(C(o.bias)), RPow(RSqrt(RSqrt(V(x, o.bias))), (o.alpha4 - 4) \div 2))
\* the intermediate results a statistic is made of: the moments of x, of y and the co-moment
XPart == {"var", "std", "corr", "continuum"}
YPart == {"corr", "continuum"}
CPart == {"com", "cov", "corr", "continuum"}
Part(o, w, x, y) ==
   LET q == [o EXCEPT !.mode = IF w = "xy" THEN "cov" ELSE "var", !.order = 2, !.center = IF ForcedMean(o.mode) THEN "mean" ELSE o.center]
   IN CASE w = "x" -> Moment(q, x, x) [] w = "y" -> Moment(q, y, y) [] w = "xy" -> Moment(q, x, y)
Parts(o) == IF OrderOf(o) # 2 THEN {} ELSE (IF o.mode \in XPart THEN {"x"} ELSE {}) \cup (IF o.mode \in YPart THEN {"y"} ELSE {}) \cup (IF o.mode \in CPart THEN {"xy"} ELSE {})
=============================================================================
