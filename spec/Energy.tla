------------------------------- MODULE Energy -------------------------------
(* Energy statistics: (U-)centred distance matrices, distance (co-)moments and
   martingale difference divergence.  A data set is a matrix (rows are cases).
   o = [mode, center, trim, bias, order, option, alpha4].                         *)
EXTENDS Moments

DistM(X) == Force([a \in 1..Rows(X) |-> [b \in 1..Rows(X) |-> Norm(VSub(X[a], X[b]))]])
\* the other ways to measure distance
Gap(m, u) == CASE m = "cityblock"   -> RSum(MapV(LAMBDA z : RAbs(z), u))
               [] m = "chebyshev"   -> MaxAbsV(u)
               [] m = "sqeuclidean" -> Norm2(u)
               [] OTHER             -> Norm(u)
DistMet(m, X) == Force([a \in 1..Rows(X) |-> [b \in 1..Rows(X) |-> Gap(m, VSub(X[a], X[b]))]])
RECURSIVE Flat(_)
Flat(M) == IF Len(M) = 0 THEN <<>> ELSE M[1] \o Flat(Tail(M))

\* double centring of a symmetric matrix
Centre2(center, t, bias, D) ==
   LET n   == Len(D)
       n1  == IF bias /\ center = "mean" THEN Num(NTrim(n, t)) ELSE Num(n)
       tt  == IF center = "median" THEN Zero ELSE t
       bb  == bias /\ center = "mean"
       mu0 == Loc(center, tt, Flat(D))
       mu  == IF bb THEN RDiv(RMul(mu0, RSq(n1)), RMul(RSub(n1, One), RSub(n1, Two))) ELSE mu0
       r0  == Force([a \in 1..n |-> Loc(center, tt, D[a])])
       r   == IF bb THEN VScale(RDiv(n1, RSub(n1, Two)), r0) ELSE r0
   IN Force([a \in 1..n |-> [b \in 1..n |-> IF a = b /\ bias THEN Zero
                                              ELSE RAdd(RSub(RSub(D[a][b], r[a]), r[b]), mu)]])

Root(x, k) == CASE k = 2 -> RSqrt(x) [] k = 3 -> RCbrt(x) [] k = 4 -> RSqrt(RSqrt(x))
\* distance co-moment of centred matrices A, B (absolute value)
DMom(o, a, b, A, B) ==
   LET n == Len(A)
       k == a + b
       pr == Flat(Force([q \in 1..n |-> [r \in 1..n |-> RMul(RPow(A[q][r], a), RPow(B[q][r], b))]]))
       N == Num(n)
       f == IF o.bias THEN RDiv(N, RSub(N, Num(3))) ELSE One
   IN IF o.center = "median" THEN RAbs(Median(pr))
      ELSE Root(RMul(RAbs(Loc("mean", o.trim, pr)), f), k)

\* martingale difference divergence (squared) of y given x
MddSqIn(o, met, X, y) ==
   LET A == Centre2(o.center, o.trim, o.bias, DistMet(met, X))
       Dy == Force([a \in 1..Len(y) |-> [b \in 1..Len(y) |-> RDiv(RSq(RSub(y[a], y[b])), Two)]])
       B == Centre2(o.center, o.trim, o.bias, Dy)
       n == Len(y)
       pr == Flat(Force([q \in 1..n |-> VMul(A[q], B[q])]))
       k == RFloor(RMul(o.trim, Num(n * n)))
       kept == SubSeq(RSort(pr), k + 1, n * n - k)
       m == RSqrt(Num(Len(kept)))
   IN RDiv(RSum(kept), IF o.bias THEN RMul(m, RSub(m, Num(3))) ELSE RSq(m))
MddSq(o, X, y) == MddSqIn(o, "euclidean", X, y)
\* martingale difference divergence matrix of Y given X
Mddm(X, Y) ==
   LET n == Rows(X)
       q == Cols(Y)
       mu == Force([j \in 1..q |-> Mean(Col(Y, j))])
       C == Force([a \in 1..n |-> VSub(Y[a], mu)])
       D == DistM(X)
   IN Force([a \in 1..q |-> [b \in 1..q |->
        RDiv(RNeg(RSum(Force([i2 \in 1..n |-> RMul(C[i2][a], Dot(D[i2], Col(C, b)))]))), Num(n * n))]])

EnergyIn(o, met, X, Y) ==
   LET k == OrderOf(o)
       b == IF k > 2 THEN o.option ELSE 1
       a == IF k > 2 THEN k - o.option ELSE 1
       c == IF ForcedMean(o.mode) THEN [o EXCEPT !.center = "mean"] ELSE o
       A == Centre2(c.center, c.trim, c.bias, DistMet(met, X))
       B == Centre2(c.center, c.trim, c.bias, DistMet(met, Y))
       M == DMom(c, a, b, A, A)
       C == DMom(c, a, b, A, B)
       x2 == DMom(c, 1, 1, A, A)
       y2 == DMom(c, 1, 1, B, B)
   IN CASE o.mode \in {"mom", "var"} -> M
        [] o.mode = "std"  -> RSqrt(M)
        [] o.mode = "skew" -> RDiv(M, RMul(x2, RSqrt(x2)))
        [] o.mode = "kurt" -> RDiv(M, RSq(x2))
        [] o.mode \in {"com", "cov", "M3"} -> C
        [] o.mode \in {"cos", "cok"} -> RDiv(C, RMul(RPow(RSqrt(x2), a), RPow(RSqrt(y2), b)))
        [] o.mode = "corr" -> RDiv(C, RMul(RSqrt(x2), RSqrt(y2)))
        [] o.mode = "continuum" -> RMul(RSq(C), RPow(RSqrt(RSqrt(x2)), (o.alpha4 - 4) \div 2))
        [] o.mode = "mdd" -> RSqrt(MddSqIn(o, met, X, Col(Y, 1)))
EnergyMoment(o, X, Y) == EnergyIn(o, "euclidean", X, Y)
EnergyPart(o, met, w, X, Y) ==
   LET q == [o EXCEPT !.mode = IF w = "xy" THEN "cov" ELSE "var", !.order = 2, !.center = IF ForcedMean(o.mode) THEN "mean" ELSE o.center]
   IN CASE w = "x" -> EnergyIn(q, met, X, X) [] w = "y" -> EnergyIn(q, met, Y, Y) [] w = "xy" -> EnergyIn(q, met, X, Y)
=============================================================================
