------------------------------- MODULE MC_Wrap ------------------------------
(* Shape of the wrapping function on a grid of standardised values k/8.           *)
EXTENDS Wrap
CONSTANT K
VARIABLE k
Init == k = -K
Next == k < K /\ k' = k + 1
Z(j) == RDiv(Num(j), Num(8))
Odd == REq(Psi(Z(-k)), RNeg(Psi(Z(k))))
BoundedOut == RLe(RAbs(Psi(Z(k))), RAdd(WB, Tol4))
Core == RLt(RAbs(Z(k)), WB) => REq(Psi(Z(k)), Z(k))
Rejected == RLe(WC, RAbs(Z(k))) => REq(Psi(Z(k)), Zero)
\* past the core the wrapped value shrinks as the raw value grows (redescending)
Redescends == (k >= 12 /\ k < K) => RLe(Psi(Z(k + 1)), RAdd(Psi(Z(k)), Tol12))
\* continuity across the breakpoints
Continuous == RLe(RAbs(RSub(Psi(Z(k)), Psi(Z(k + 1)))), Num("1/4"))
=============================================================================
