-------------------------------- MODULE Sprm --------------------------------
(* Sparse partial robust M regression as a transition system.

   o = [fun, p1, p2, p3, centre, scale, mode, init, eta, h, tol].  The state is the
   vector of case weights.  One transition = one sparse NIPALS fit on the weighted
   scaled data followed by re-weighting in residual and in score space.           *)
EXTENDS Rm, Snipls

Thr == Num("1/100000")
\* variables whose scale is (numerically) zero are left out of the model
Kept(sx) == SeqOfSet({j \in 1..Len(sx) : ~RLt(sx[j], Thr)})
XsK(X, scl) == LET kp == Kept(scl.sx) IN
   Forward(RowsOf(scl.mx, kp), RowsOf(scl.sx, kp), ColsOf(X, kp))

\* weights from distances in a (centred and scaled) score space, df = its dimension
DistW(o, cuts, Z) == LET d == Force([k \in 1..Rows(Z) |-> Norm(Z[k])])
                         m == Median(d)
                     IN Wv(o, cuts, Force([k \in 1..Len(d) |-> RDiv(d[k], m)]))
\* cut-offs for the score distances: at the start, and once components are extracted
Cuts0(o, rc) == IF o.mode = "specific" THEN <<Chi2Q(o.p1, rc), Chi2Q(o.p2, rc), Chi2Q(o.p3, rc)>> ELSE CutsY(o)
CutsT(o, rc) == IF o.fun = "Hampel" THEN <<Chi2Q(o.p1, o.h), Chi2Q(o.p2, o.h), Chi2Q(o.p3, o.h)>> ELSE Cuts0(o, rc)

\* number of leading principal components that beat the broken stick, at least one
RelComp(ev) ==          \* ev = squared singular values, descending
   LET q == Len(ev)
       tot == RSum(ev)
       beat(j) == RLt(BrokenStick(q, j), RDiv(ev[j], tot))
       first == CHOOSE j \in 1..(q + 1) : (j = q + 1 \/ ~beat(j)) /\ \A l \in 1..(j - 1) : beat(l)
   IN IF first = 1 THEN 1 ELSE first - 1
RelCompSure(ev) == LET q == Len(ev) tot == RSum(ev) IN
   q = 1 \/ \A j \in 1..q : RLt(Tol9, RAbs(RSub(BrokenStick(q, j), RDiv(ev[j], tot))))

\* starting weights of the predictand without regard to the sign (rm: StartYW) or,
\* as a known deviation, of the signed standardised values
SignedYW(o, y) == LET m == Median(y)
                      sc == RMul(K14826, Median(MapV(LAMBDA u : RAbs(RSub(u, m)), y)))
                      r == MapV(LAMBDA u : RDiv(RSub(u, m), sc), y)
                  IN Force([k \in 1..Len(r) |-> IF o.fun # "Fair" /\ RLe(r[k], Zero) THEN One
                                                ELSE Wv(o, CutsY(o), <<r[k]>>)[1]])

\* one sparse NIPALS fit on data multiplied by the root of the weights
RECURSIVE ExtendTo(_, _, _)
ExtendTo(st, eta, h) == IF h = 0 THEN st ELSE ExtendTo(Extend(st, eta), eta, h - 1)
Fit(o, XS, YS, w) ==
   LET r  == MapV(LAMBDA u : RSqrt(u), w)
       Xw == Force([k \in 1..Rows(XS) |-> VScale(r[k], XS[k])])
       yw == VMul(YS, r)
       c  == Force([j \in 1..Cols(XS) |-> Mean(Col(Xw, j))])
       my == Mean(yw)
       st == ExtendTo(Start(Force([k \in 1..Rows(Xw) |-> VSub(Xw[k], c)]), MapV(LAMBDA u : RSub(u, my), yw)), o.eta, o.h)
       b  == CoefScaled(st)
       f  == MatVec(Xw, b)
       ic == Mean(VSub(yw, f))
   IN [st |-> st, b |-> b, fit |-> MapV(LAMBDA u : RAdd(u, ic), f), r |-> r]
\* residual weights after a fit m
YW(o, YS, m) ==
   LET a  == MapV(LAMBDA u : RAbs(u), VSub(YS, m.fit))
       nz == SelectSeq(a, LAMBDA u : ~REq(u, Zero))
       sc == RMul(K14826, IF 2 * (Len(a) - Len(nz)) < Len(a) THEN Median(a) ELSE Median(nz))
   IN Wv(o, CutsY(o), MapV(LAMBDA u : RDiv(u, sc), a))
\* scores per unit weight
TW(m) == LET Tm == Transpose(m.st.T) IN Force([k \in 1..Rows(Tm) |-> VScale(RDiv(One, m.r[k]), Tm[k])])
TScale(o) == IF o.scale = "None" THEN "mad" ELSE o.scale
=============================================================================
