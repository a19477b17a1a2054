----------------------------- MODULE MC_Snipls ------------------------------
(* Design model: every small integer data set, components extracted one by one.
   States are integral; the algorithm state is recomputed from the data.          *)
EXTENDS Snipls
CONSTANTS XVals, YVals
VARIABLES x, y, eta, h
N == 4
Xc == LET M == <<<<x[1], 1, 0>>, <<x[2], -1, 2>>, <<x[3], 0, -1>>, <<x[4], 2, 1>>>>
      IN MapM(LAMBDA u : Num(u), M)
O == [center |-> "mean", scale |-> "None", trimming |-> Zero]
X0 == Forward(Centers(O, Xc), ConstVec(3, One), Xc)
y0 == LET v == Force([k \in 1..N |-> Num(y[k])]) m == Mean(v) IN MapV(LAMBDA u : RSub(u, m), v)
E(k) == CASE k = 0 -> Zero [] k = 1 -> Num("1/2") [] k = 2 -> Num("4/5")
RECURSIVE St(_)
St(j) == IF j = 0 THEN Start(X0, y0) ELSE Extend(St(j - 1), E(eta))
Init == /\ x \in [1..4 -> XVals] /\ y \in [1..4 -> YVals] /\ eta \in 0..2 /\ h = 0
        /\ \E a, b \in 1..4 : y[a] # y[b]
Next == h < 2 /\ h' = h + 1 /\ UNCHANGED <<x, y, eta>>
Live == h > 0 /\ ~St(h).amb
\* scores of different components are orthogonal
Orthogonal == (Live /\ h = 2) => Close(Dot(St(2).T[1], St(2).T[2]), Zero, Tol12)
\* retained variables only accumulate; extracting one more leaves the earlier components alone
Nested == (Live /\ h = 2) => /\ St(1).ret \subseteq St(2).ret
                             /\ St(2).W[1] = St(1).W[1] /\ St(2).C[1] = St(1).C[1]
\* coefficients vanish off the retained set
Sparse == Live => \A j \in 1..3 : j \notin St(h).ret => Close(CoefScaled(St(h))[j], Zero, Tol12)
\* fitted values are the projection of y on the scores
FitIsProjection == Live =>
   LET s1 == St(h)
       f == MatVec(X0, CoefScaled(s1))
   IN \A k \in 1..h : Close(Dot(s1.T[k], VSub(y0, f)), Zero, Tol9)
\* explained variance of y is between 0 and 100 and adds up
EvBounded == Live => LET t == RSum(Force([k \in 1..h |-> YEv(St(h), k)])) IN RLe(Zero, t) /\ RLe(t, RAdd(Num(100), Tol9))
=============================================================================
