------------------------------- MODULE MC_Rm --------------------------------
(* Design model: all small integer regression problems with one predictor, the
   algorithm run step by step (the iterate is recomputed from the data, so that
   states stay integral).                                                        *)
EXTENDS Rm
CONSTANTS YVals, N, MaxK
VARIABLES y, fun, k
X == Force([q \in 1..N |-> <<Num(q * q - 2 * q)>>])
o == [fun |-> fun, p1 |-> "0.9", p2 |-> "0.975", p3 |-> "0.999", centre |-> "median", scale |-> "mad", mode |-> "specific"]
V(m) == Force([q \in 1..N |-> Num(m * y[q])])
SclOf(v) == [mx |-> <<NanMedian(Col(X, 1))>>, sx |-> <<Mad(Col(X, 1))>>, my |-> Median(v), sy |-> Mad(v)]
RECURSIVE B(_, _)
B(v, j) == LET sc == SclOf(v) IN
   IF j = 1 THEN FirstB(o, Xs(X, sc), v, Ys(v, sc)) ELSE NextB(o, Xs(X, sc), Ys(v, sc), B(v, j - 1))
Init == /\ y \in [1..N -> YVals] /\ fun \in {"Fair", "Huber", "Hampel"} /\ k = 0
        /\ ~REq(Mad(Force([q \in 1..N |-> Num(y[q])])), Zero)
Next == k < MaxK /\ k' = k + 1 /\ UNCHANGED <<y, fun>>
Ok(v) == \A q \in 1..Len(v) : IsFin(v[q])
Perfect == \E j \in 1..k : LET v == V(1) sc == SclOf(v) IN
             REq(Median(MapV(LAMBDA u : RAbs(u), VSub(Ys(v, sc), MatVec(Xs(X, sc), B(v, j))))), Zero)
WeightsInUnit == (k > 0 /\ ~Perfect) =>
   LET v == V(1)
       sc == SclOf(v)
       w == CaseW(o, Xs(X, sc), Ys(v, sc), B(v, k))
   IN \A q \in 1..N : RLe(Zero, w[q]) /\ RLe(w[q], One)
\* multiplying y by -3 multiplies the (unscaled) coefficients by -3 and leaves the weights
Equivariant == (k > 0 /\ ~Perfect) =>
   LET v == V(1)
       u == V(-3)
       s1 == SclOf(v)
       s2 == SclOf(u)
   IN Close(Rescaled(B(u, k), s2)[1], RMul(Num(-3), Rescaled(B(v, k), s1)[1]), Tol12)
=============================================================================
