----------------------------- MODULE MC_Moments -----------------------------
(* Design model: laws of the product-moment statistics on all small data sets.     *)
EXTENDS Moments
CONSTANTS XVals, YVals, N
VARIABLES x, y, bias
Init == x \in [1..N -> XVals] /\ y \in [1..N -> YVals] /\ bias \in BOOLEAN
Next == UNCHANGED <<x, y, bias>>
V(v, a, b) == Force([k \in 1..N |-> Num(a * v[k] + b)])
O(mode) == [mode |-> mode, center |-> "mean", trim |-> Zero, bias |-> bias, order |-> 2, option |-> 1, alpha4 |-> 4, std |-> TRUE, fisher |-> TRUE]
S(mode, u, w) == Moment(O(mode), u, w)
vx == V(x, 1, 0)
vy == V(y, 1, 0)
Vary(v) == \E a, b \in 1..N : v[a] # v[b]
CovLaws == /\ REq(S("cov", vx, vy), S("cov", vy, vx))
           /\ REq(S("cov", vx, vx), S("var", vx, vx))
           /\ REq(S("cov", V(x, -2, 5), vy), RMul(Num(-2), S("cov", vx, vy)))
VarLaws == /\ RLe(Zero, S("var", vx, vx))
           /\ Close(RSq(S("std", vx, vx)), S("var", vx, vx), Tol12)
CorrLaws == (Vary(x) /\ Vary(y)) =>
              /\ RLe(RAbs(S("corr", vx, vy)), RAdd(One, Tol12))
              /\ Close(S("corr", V(x, -3, 1), vy), RNeg(S("corr", vx, vy)), Tol12)
              /\ Close(S("corr", vx, vx), One, Tol12)
\* the co-statistics of a variable with itself are the statistics of that variable
Diagonal == Vary(x) => /\ Close(S("cos", vx, vx), S("skew", vx, vx), Tol12)
                       /\ Close(S("cok", vx, vx), S("kurt", vx, vx), Tol12)
\* standardised statistics do not depend on the units
Standardised == (Vary(x) /\ Vary(y)) =>
              /\ Close(S("skew", V(x, -2, 3), vx), RNeg(S("skew", vx, vx)), Tol12)
              /\ Close(S("kurt", V(x, -2, 3), vx), S("kurt", vx, vx), Tol12)
              /\ Close(S("cos", V(x, 3, 1), V(y, 2, 0)), S("cos", vx, vy), Tol12)
              /\ Close(S("cok", V(x, 3, 1), V(y, 2, 0)), S("cok", vx, vy), Tol12)
ContinuumAtOne == Close(S("continuum", vx, vy), RSq(S("cov", vx, vy)), Tol12) \/ ~Vary(x)
=============================================================================
