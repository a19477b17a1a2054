-------------------------------- MODULE Gss ---------------------------------
(* Generalised spatial signs (Raymaekers and Rousseeuw 2019): every centred case
   is multiplied by a radial weight xi(|x|).  For the boundary cases of the hard
   rejection rules the specification allows either value within 1e-9.           *)
EXTENDS Stats

Norms(X) == Force([i \in 1..Rows(X) |-> Norm(X[i])])
Pow23(d) == RSq(RCbrt(d))                      \* d^(2/3), Wilson-Hilferty
Pow32(d) == RMul(d, RSqrt(d))                  \* d^(3/2)
HIdx(n, p) == (n + p + 1) \div 2

\* d = vector of norms; result: sequence of sets of admissible weights
HMed(d, p)   == Kth(d, HIdx(Len(d), p))
WH(d)        == MapV(LAMBDA u : Pow23(u), d)
WHMed(d, p)  == HMed(WH(d), p)
WHMad(d, p)  == LET m == WHMed(d, p)
                IN Kth(MapV(LAMBDA u : RAbs(RSub(u, m)), WH(d)), HIdx(Len(d), p))

NearR(a, b) == RLe(RAbs(RSub(a, b)), RMul(Tol9, RMax(RAbs(a), RAbs(b))))
Hard(cond, near) == IF near THEN {Zero, One} ELSE IF cond THEN {One} ELSE {Zero}

Xi(fun, d, p) ==
   LET h   == HMed(d, p)
       wm  == WHMed(d, p)
       ws  == WHMad(d, p)
       lo  == IF RLt(wm, ws) THEN Zero ELSE Pow32(RSub(wm, ws))
       hi  == Pow32(RAdd(wm, ws))
       h3  == Pow32(wm)
       cut == Pow32(RAdd(wm, RMul(Num("1.4826"), ws)))
   IN Force([k \in 1..Len(d) |->
       CASE fun = "ss"     -> {RDiv(One, RMax(d[k], Num("1/10000000000")))}
         [] fun = "quad"   -> {IF RLe(d[k], h) THEN One ELSE RDiv(RSq(h), RSq(d[k]))}
         [] fun = "winsor" -> {IF RLe(d[k], h) THEN One ELSE RDiv(h, d[k])}
         [] fun = "ball"   -> IF RLe(d[k], h) THEN {One} ELSE {Zero}
         [] fun = "shell"  -> Hard(RLe(lo, d[k]) /\ RLe(d[k], hi), NearR(d[k], lo) \/ NearR(d[k], hi))
         [] fun = "linear_redescending" ->
              IF NearR(h3, cut) THEN Hard(RLe(d[k], cut), NearR(d[k], cut))
              ELSE IF RLe(d[k], h3) THEN {One}
              ELSE IF RLe(d[k], cut) THEN {RSub(One, RDiv(RSub(d[k], h3), RSub(cut, h3)))}
              ELSE {Zero}])
=============================================================================
