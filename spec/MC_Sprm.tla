------------------------------ MODULE MC_Sprm -------------------------------
(* Design model: all small integer problems with two predictors; the algorithm is
   run step by step from starting weights on the scaled data (states integral).    *)
EXTENDS Sprm
CONSTANTS YVals, MaxK
VARIABLES y, fun, k
N == 5
X == MapM(LAMBDA u : Num(u), <<<<0, 1>>, <<1, -1>>, <<3, 0>>, <<4, 4>>, <<-2, 5>>>>)
o == [fun |-> fun, p1 |-> "0.9", p2 |-> "0.975", p3 |-> "0.999", centre |-> "median", scale |-> "mad",
      mode |-> "specific", init |-> "xonly", eta |-> Num("1/2"), h |-> 1, tol |-> Tol4]
so == [center |-> "median", scale |-> "mad", trimming |-> Zero]
\* y under an affine map a*y + b and a rotation of the cases by r
V(a, b, r) == Force([q \in 1..N |-> Num(a * y[((q + r - 1) % N) + 1] + b)])
XR(r) == Force([q \in 1..N |-> X[((q + r - 1) % N) + 1]])
SclOf(M, v) == [mx |-> Centers(so, M), sx |-> Scales(so, M), my |-> Median(v), sy |-> Mad(v)]
RECURSIVE Wt(_, _, _)
Model(M, v, j) == LET sc == SclOf(M, v) IN Fit(o, XsK(M, sc), Ys(v, sc), Floored(Wt(M, v, j - 1)))
Wt(M, v, j) ==
   LET sc == SclOf(M, v)
       XS == XsK(M, sc)
       YS == Ys(v, sc)
   IN IF j = 0 THEN VMul(DistW(o, Cuts0(o, 2), XS), StartYW(o, v, YS))
      ELSE LET m == Model(M, v, j)
               TM == TW(m)
           IN VMul(YW(o, YS, m), DistW(o, CutsT(o, 2), Forward(Centers(so, TM), Scales(so, TM), TM)))
Init == /\ y \in [1..N -> YVals] /\ fun \in {"Fair", "Huber", "Hampel"} /\ k = 0
        /\ ~REq(Mad(V(1, 0, 0)), Zero)
Next == k < MaxK /\ k' = k + 1 /\ UNCHANGED <<y, fun>>
Bad(v) == \E q \in 1..Len(v) : ~IsFin(v[q])
Live == k > 0 /\ ~Model(X, V(1, 0, 0), k).st.amb /\ ~Bad(Wt(X, V(1, 0, 0), k))
WeightsInUnit == Live => LET w == Wt(X, V(1, 0, 0), k) IN \A q \in 1..N : RLe(Zero, w[q]) /\ RLe(w[q], One)
\* y -> -2y + 7: same weights, mirrored coefficients
Equivariant == Live => /\ CloseV(Wt(X, V(-2, 7, 0), k), Wt(X, V(1, 0, 0), k), Tol9)
                       /\ CloseV(Model(X, V(-2, 7, 0), k).b, MapV(LAMBDA u : RNeg(u), Model(X, V(1, 0, 0), k).b), Tol9)
\* permuting the cases permutes the weights and leaves the coefficients
Exchangeable == Live => CloseV(Model(XR(2), V(1, 0, 2), k).b, Model(X, V(1, 0, 0), k).b, Tol9)
\* variables that are not retained get a zero coefficient
Sparse == Live => LET m == Model(X, V(1, 0, 0), k) IN \A j \in 1..2 : j \notin m.st.ret => Close(m.b[j], Zero, Tol12)
=============================================================================
