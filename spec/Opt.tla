-------------------------------- MODULE Opt ---------------------------------
(* Sufficient dimension reduction by constrained optimisation, and the problem
   handed to the interior point solver.

   The candidate basis is a vector b of length p*h, column by column.  The solver
   minimises  -10 * (distance covariance or martingale difference divergence of
   the response and the projected predictors)  subject to  B'G B = I, with G the
   covariance of the prepared predictors, or the identity once they have been
   standardised by N2.  The basis reported is N2 B on standardised data, B itself
   otherwise.  o = [center, trim, bias, dmetric].                                 *)
EXTENDS Sdr, Energy, Ask

Shape(b, h) == LET p == Len(b) \div h IN Force([j \in 1..p |-> [k \in 1..h |-> b[(k - 1) * p + j]]])
Unroll(B) == LET p == Rows(B) IN Force([q \in 1..(p * Cols(B)) |-> B[((q - 1) % p) + 1][((q - 1) \div p) + 1]])


\* prepared predictors
Prepared(e, N2) ==
   LET X == e.X
       p == Cols(X)
       loc == Force([j \in 1..p |-> IF ~e.center_data THEN Zero
                                    ELSE IF e.center = "mean" THEN TrimMean(Col(X, j), e.trim) ELSE Median(Col(X, j))])
   IN IF e.scale_data THEN MatMul(About(X, loc), N2) ELSE About(X, loc)
\* what standardises the predictors: inverse root of the covariance, or of the mads
IsStandardiser(N2, e) ==
   LET p == Cols(e.X)
   IN /\ IsMat(N2, p, p)
      /\ IF e.center = "mean"
         THEN /\ CloseM(MatMul(N2, MatMul(Cov1(e.X), N2)), Ident(p), Tol6)
              /\ CloseMx(N2, Transpose(N2), Tol7)
              /\ Inertia(N2).neg = 0
         ELSE CloseMx(N2, Force([j \in 1..p |-> [k \in 1..p |-> IF j # k THEN Zero
                                    ELSE LET s == Mad(Col(e.X, j)) IN IF REq(s, Zero) THEN One ELSE RDiv(One, s)]]), Tol9)

Ten == Num("-10")
\* distance covariance of the projected predictors and the response
DcovObj(o, Xs, y, b, h) ==
   LET A == Centre2(o.center, o.trim, FALSE, DistMet(o.dmetric, MatMul(Xs, Shape(b, h))))
       B == Centre2(o.center, o.trim, FALSE, DistMet(o.dmetric, ColMat(y)))
       n == Len(y)
       pr == Flat(Force([q \in 1..n |-> VMul(A[q], B[q])]))
   IN RMul(Ten, IF o.center = "median" THEN Median(pr) ELSE RSqrt(RAbs(Loc("mean", o.trim, pr))))
MddObj(o, Xs, y, b, h) == RMul(Ten, RSqrt(MddSqIn(o, o.dmetric, MatMul(Xs, Shape(b, h)), y)))
Objective(kind, o, Xs, y, b, h) == IF kind = "mdd" THEN MddObj(o, Xs, y, b, h) ELSE DcovObj(o, Xs, y, b, h)

\* constraints in the order (1,1), (1,2), ..., (h,h)
ConsG(G, b, h) == LET B == Shape(b, h)
                      M == MatSub(MatTMul(B, MatMul(G, B)), Ident(h))
                  IN Force([q \in 1..(h * h) |-> M[((q - 1) \div h) + 1][((q - 1) % h) + 1]])

\* squared distance covariance of the data projected on the span of B
DcovSqSpan(Xs, y, B) ==
   LET A == Centre2("mean", Zero, FALSE, DistM(MatMul(Xs, ProjOn(B))))
       C == Centre2("mean", Zero, FALSE, DistM(ColMat(y)))
       n == Len(y)
   IN Mean(Flat(Force([q \in 1..n |-> VMul(A[q], C[q])])))
=============================================================================
