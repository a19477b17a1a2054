------------------------------ MODULE Weights -------------------------------
(* M-estimation case weights as functions of a non-negative scaled distance, and
   the cut-off values used by the estimators (quantiles of the normal and chi-
   square distributions).                                                        *)
EXTENDS Stats

FairW(r, c)  == RDiv(One, RSq(RAdd(One, RDiv(RAbs(r), RMul(Two, c)))))
HuberW(r, c) == LET a == RAbs(r) IN IF RLe(a, c) THEN One ELSE RDiv(c, a)
HampelW(r, c, b, e) == LET a == RAbs(r) IN
   IF RLe(a, c) THEN One
   ELSE IF RLe(a, b) THEN RDiv(c, a)
   ELSE IF ~IsFin(e) THEN RDiv(c, a)                \* the limit of no rejection (probability one)
   ELSE IF RLe(a, e) THEN RDiv(RMul(c, RSub(e, a)), RMul(RSub(e, b), a))
   ELSE Zero
W(fun, r, c, b, e) == IF IsNaN(r) THEN r
   ELSE CASE fun = "Fair" -> FairW(r, c)
          [] fun = "Huber" -> HuberW(r, c)
          [] fun = "Hampel" -> HampelW(r, c, b, e)

\* expected share of variance of the k-th of n components under the broken stick
BrokenStick(n, k) == RDiv(RSum(Force([q \in 1..(n - k + 1) |-> RDiv(One, Num(k + q - 1))])), Num(n))

\* weighted losses with weights w
WMse(y, f, w) == RDiv(RSum(Force([k \in 1..Len(y) |-> RMul(w[k], RSq(RSub(y[k], f[k])))])), RSum(w))
WMae(y, f, w) == RDiv(RSum(Force([k \in 1..Len(y) |-> RMul(w[k], RAbs(RSub(y[k], f[k])))])), RSum(w))
=============================================================================
