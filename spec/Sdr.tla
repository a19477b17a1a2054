-------------------------------- MODULE Sdr ---------------------------------
(* Sufficient dimension reduction by eigen-decomposition of a kernel matrix.

   The predictors are reduced in the metric G: their covariance matrix when the
   data are standardised, the identity otherwise.  Every method is defined by a
   symmetric kernel matrix K; the basis are the leading eigenvectors of K in the
   metric G:  K P = G P Lambda,  P'G P = I.                                       *)
EXTENDS Scaler

ColMeans(X) == Force([j \in 1..Cols(X) |-> Mean(Col(X, j))])
About(X, mu) == Force([i \in 1..Rows(X) |-> VSub(X[i], mu)])
\* covariance with divisor n - 1
Cov1(X) == LET C == About(X, ColMeans(X)) IN MatScale(RDiv(One, Num(Rows(X) - 1)), MatTMul(C, C))

(* ------------------------------- slices ------------------------------------- *)
\* cut points of the ordered response: every floor(n/h)-th order statistic
CutPoints(y, h) == LET srt == RSort(y)
                       m == Len(y) \div h
                   IN Force([i \in 1..(h - 1) |-> srt[i * m + 1]])
SliceNo(y, h) == LET c == CutPoints(y, h)
                 IN Force([i \in 1..Len(y) |-> 1 + Cardinality({k \in 1..(h - 1) : RLe(c[k], y[i])})])
SameClass(y, i) == {k \in 1..Len(y) : REq(y[k], y[i])}
\* the set of slices, each a set of cases
Slices(y, h, discrete) ==
   IF discrete THEN {SameClass(y, i) : i \in 1..Len(y)}
   ELSE LET s == SliceNo(y, h) IN {{k \in 1..Len(y) : s[k] = s[i]} : i \in 1..Len(y)}

(* ------------------------------- kernels ------------------------------------ *)
RECURSIVE MSum(_, _)
MSum(s, p) == IF s = <<>> THEN ZeroMat(p, p) ELSE MatAdd(s[1], MSum(Tail(s), p))
\* statistics of one slice: proportion, mean about mu, covariance (the metric itself for a single case)
SliceStat(X, S, mu, G) ==
   LET Z == RowsOf(X, SeqOfSet(S))
   IN [w |-> RDiv(Num(Cardinality(S)), Num(Rows(X))), m |-> VSub(ColMeans(Z), mu),
       V |-> IF Cardinality(S) > 1 THEN Cov1(Z) ELSE G]
\* the slices in the order of their first case
RECURSIVE SetSeq(_)
SetSeq(SS) == IF SS = {} THEN <<>>
              ELSE LET a == CHOOSE a \in SS : \A b \in SS : (CHOOSE x \in a : \A y \in a : x <= y) <= (CHOOSE x \in b : \A y \in b : x <= y)
                   IN <<a>> \o SetSeq(SS \ {a})
SliceStats(X, SS, mu, G) == LET q == SetSeq(SS) IN Force([k \in 1..Len(q) |-> SliceStat(X, q[k], mu, G)])

Hessian(X, y, mu) == LET Z == About(X, mu)
                         m == Mean(y)
                     IN MatScale(RDiv(One, Num(Len(y))), MatTMul(Z, Force([i \in 1..Len(y) |-> VScale(RSub(y[i], m), Z[i])])))
CovXY(X, y) == LET Z == About(X, ColMeans(X))
                   m == Mean(y)
               IN VScale(RDiv(One, Num(Len(y) - 1)), MatTVec(Z, MapV(LAMBDA u : RSub(u, m), y)))
RECURSIVE Krylov(_, _, _)
Krylov(A, v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o Krylov(A, MatVec(A, v), k - 1)

Kernel(meth, X, y, SS, mu, G) ==
   LET p == Cols(X)
       st == SliceStats(X, SS, mu, G)
       Gi == Inverse(G)
   IN CASE meth = "sir" -> MSum([k \in 1..Len(st) |-> MatScale(st[k].w, Outer(st[k].m, st[k].m))], p)
        [] meth = "save" -> MSum([k \in 1..Len(st) |-> LET E == MatSub(st[k].V, G) IN MatScale(st[k].w, MatMul(E, MatMul(Gi, E)))], p)
        [] meth = "dr" ->
             LET A(k) == MatAdd(st[k].V, Outer(st[k].m, st[k].m))
                 M1 == MSum([k \in 1..Len(st) |-> MatScale(st[k].w, MatMul(A(k), MatMul(Gi, A(k))))], p)
                 M2 == MSum([k \in 1..Len(st) |-> MatScale(st[k].w, Outer(st[k].m, st[k].m))], p)
             IN MatScale(Two, MatSub(MatAdd(MatAdd(M1, MatMul(M2, MatMul(Gi, M2))), MatScale(Trace(MatMul(Gi, M2)), M2)), G))
        [] meth = "phd" -> Hessian(X, y, mu)
        [] meth = "iht" -> LET Kr == Krylov(MatMul(Hessian(X, y, mu), Gi), CovXY(X, y), p) IN MatTMul(Kr, Kr)

(* --------------------------- eigen certificate ------------------------------- *)
\* number of eigenvalues of K in the metric G above c
PencilAbove(K, G, c) == Inertia(MatSub(K, MatScale(c, G))).pos
\* an upper bound of the largest absolute eigenvalue
PencilNorm(K, G) == LET A == MatMul(Inverse(G), K) IN RSqrt(RAbs(Trace(MatMul(A, A))))
Leading(P, K, G, tol) ==
   LET d == Cols(P)
       L == PencilNorm(K, G)
       Gi == Inverse(G)
       lam == Force([k \in 1..d |-> Dot(Col(P, k), MatVec(K, Col(P, k)))])
       res(k) == VSub(MatVec(K, Col(P, k)), VScale(lam[k], MatVec(G, Col(P, k))))
   IN   (IF CloseM(MatTMul(P, MatMul(G, P)), Ident(d), Tol6) THEN {} ELSE {"basis-not-normalised"})
   \cup (IF \A k \in 1..d : RLe(Dot(res(k), MatVec(Gi, res(k))), RSq(RMul(tol, L))) THEN {} ELSE {"not-eigenvectors"})
   \cup (IF \A k \in 1..d : PencilAbove(K, G, RAdd(lam[k], RMul(tol, L))) <= k - 1 THEN {} ELSE {"not-the-leading-ones"})

(* --------------------------- projections ------------------------------------- *)
ProjOn(P) == MatMul(P, SolveM(MatTMul(P, P), Transpose(P)))
\* spectral norm of a symmetric matrix, by bisection
SpecNorm(S) == LET RECURSIVE F(_, _, _)
                   F(lo, hi, k) == IF k = 0 THEN RDiv(RAdd(lo, hi), Two)
                                   ELSE LET c == RDiv(RAdd(lo, hi), Two)
                                        IN IF NumAbove(S, c) > 0 \/ NumAbove(MatScale(Num("-1"), S), c) > 0 THEN F(c, hi, k - 1) ELSE F(lo, c, k - 1)
               IN F(Zero, RAdd(RSqrt(RSum(Force([i \in 1..Len(S) |-> Norm2(S[i])]))), Tol9), 40)

(* --------------------------- least squares on the scores ----------------------- *)
\* intercept and slopes of y on the columns of Z
OlsFit(Z, y) == LET A == Force([i \in 1..Len(Z) |-> <<One>> \o Z[i]]) IN Solve(MatTMul(A, A), MatTVec(A, y))
OlsPredict(b, Z) == Force([i \in 1..Len(Z) |-> Dot(b, <<One>> \o Z[i])])
=============================================================================
