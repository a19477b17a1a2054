----------------------------- MODULE MC_Energy ------------------------------
(* Design model: laws of the energy statistics on all small data sets.             *)
EXTENDS Energy
CONSTANTS XVals, YVals, N
VARIABLES x, y
Init == x \in [1..N -> XVals] /\ y \in [1..N -> YVals]
Next == UNCHANGED <<x, y>>
O(mode) == [mode |-> mode, center |-> "mean", trim |-> Zero, bias |-> FALSE, order |-> 2, option |-> 1, alpha4 |-> 4]
M(v, a, b) == Force([k \in 1..N |-> <<Num(a * v[k] + b)>>])
M2(v, w) == Force([k \in 1..N |-> <<Num(v[k]), Num(w[k])>>])
S(mode, u, w) == EnergyMoment(O(mode), u, w)
Vary(v) == \E a, b \in 1..N : v[a] # v[b]
X1 == M(x, 1, 0)
Y1 == M(y, 1, 0)
Symmetric == Close(S("cov", X1, Y1), S("cov", Y1, X1), Tol12)
Scales == /\ Close(S("var", M(x, -3, 2), X1), RMul(Num(3), S("var", X1, X1)), Tol12)
          /\ Vary(x) => RLt(Zero, S("var", X1, X1))
Correlation == (Vary(x) /\ Vary(y)) =>
     /\ RLe(Zero, S("corr", X1, Y1)) /\ RLe(S("corr", X1, Y1), RAdd(One, Tol12))
     /\ Close(S("corr", X1, M(x, -2, 7)), One, Tol12)
     /\ Close(S("corr", M(x, 5, 1), M(y, -2, 0)), S("corr", X1, Y1), Tol12)
Constant == ~Vary(y) => Close(S("cov", X1, Y1), Zero, Tol12)
\* the divergence is the (1,1) entry of the divergence matrix, which is positive semi-definite
Divergence ==
   LET D1 == Mddm(X1, Y1)[1][1]
       D2 == Mddm(X1, M2(y, x))
   IN /\ Close(MddSq(O("mdd"), X1, Col(Y1, 1)), D1, Tol12)
      /\ RLe(RNeg(Tol12), D1)
      /\ Inertia(MatAdd(D2, MatScale(Tol9, Ident(2)))).neg = 0
      /\ REq(D2[1][2], D2[2][1]) \/ Close(D2[1][2], D2[2][1], Tol12)
=============================================================================
