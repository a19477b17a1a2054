-------------------------------- MODULE Wrap --------------------------------
(* The wrapping transformation (Raymaekers and Rousseeuw 2021).                  *)
EXTENDS Stats
WB == Num("3/2")
WC == Num(4)
WQ1 == Num("1.540793")
WQ2 == Num("0.8622731")
Sign(z) == IF RLt(z, Zero) THEN RNeg(One) ELSE IF RLt(Zero, z) THEN One ELSE Zero
Psi(z) == LET a == RAbs(z) IN
   IF IsNaN(z) THEN z
   ELSE IF RLt(a, WB) THEN z
   ELSE IF RLt(a, WC) THEN RMul(Sign(z), RMul(WQ1, RTanh(RMul(WQ2, RSub(WC, a)))))
   ELSE Zero
SafeS(sc) == IF REq(sc, Zero) THEN One ELSE sc
WrapOne(x, m, sc) == RAdd(RMul(Psi(RDiv(RSub(x, m), SafeS(sc))), SafeS(sc)), m)
\* within rounding of a breakpoint both branches are acceptable
WrapOk(z, x, m, sc) ==
   \/ CloseS(z, WrapOne(x, m, sc), Tol7, RAbs(m))
   \/ LET u == RDiv(RSub(x, m), SafeS(sc)) IN
      /\ IsFin(u)
      /\ \E q \in {WB, WC} : RLe(RAbs(RSub(RAbs(u), q)), Tol9)
      /\ CloseS(z, RAdd(RMul(u, SafeS(sc)), m), Tol4, RAbs(m)) \/ CloseS(z, m, Tol4, RAbs(sc))
=============================================================================
