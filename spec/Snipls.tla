------------------------------- MODULE Snipls -------------------------------
(* Sparse NIPALS partial least squares as a transition system: one transition
   extracts one latent component.

   State: [Xi, yi] deflated data, W, P, T, C (sequences, one entry per component),
   ret = indices of the variables retained so far, amb = some variable was within
   rounding of the sparsity threshold.  A missing entry (nan) contributes nothing
   to any inner product.                                                          *)
EXTENDS Scaler

NDot(u, v) == RSum(Force([k \in 1..Len(u) |->
                 LET q == RMul(u[k], v[k]) IN IF IsNaN(q) THEN Zero ELSE q]))
NMatVec(M, v)  == Force([k \in 1..Len(M) |-> NDot(M[k], v)])
NMatTVec(M, v) == NMatVec(Transpose(M), v)
NGram(M) == LET Tm == Transpose(M) IN Force([a \in 1..Len(Tm) |-> [b \in 1..Len(Tm) |-> NDot(Tm[a], Tm[b])]])
NSumSq(M) == RSum(Force([k \in 1..Len(M) |-> NDot(M[k], M[k])]))

Sgn(x) == IF RLt(x, Zero) THEN RNeg(One) ELSE IF RLt(Zero, x) THEN One ELSE Zero

Start(X0, y0) == [X0 |-> X0, y0 |-> y0, Xi |-> X0, yi |-> y0, W |-> <<>>, P |-> <<>>, T |-> <<>>, C |-> <<>>,
                  und |-> <<>>, rets |-> <<>>, ret |-> {}, amb |-> FALSE]

Extend(st, eta) ==
   LET p   == Cols(st.Xi)
       w0  == NMatTVec(st.Xi, st.yi)
       nw  == Norm(w0)
       w   == VScale(RDiv(One, nw), w0)
       mx  == MaxAbsV(w)
       g   == Force([j \in 1..p |-> RSub(RAbs(w[j]), RMul(eta, mx))])
       ret == st.ret \cup {j \in 1..p : RLt(Zero, g[j])}
       wh  == Force([j \in 1..p |-> IF j \in ret THEN RMul(g[j], Sgn(w[j])) ELSE Zero])
       \* a retained variable of which nothing is left after deflation has w = 0 up to
       \* rounding: the sign of its weight is noise (and immaterial to everything else)
       Xt  == Transpose(st.Xi)
       nul == {j \in ret : RLe(RAbs(w[j]), RMul(Tol9, mx)) /\ ~REq(eta, Zero)}
       th  == NMatVec(st.Xi, wh)
       n2  == Norm2(th)
       ch  == RDiv(NDot(st.yi, th), n2)
       pf  == VScale(RDiv(One, n2), NMatTVec(st.Xi, th))
       ph  == Force([j \in 1..p |-> IF j \in ret THEN pf[j] ELSE Zero])
   IN [X0 |-> st.X0, y0 |-> st.y0,
       Xi |-> Force([k \in 1..Rows(st.Xi) |-> VSub(st.Xi[k], VScale(th[k], pf))]),
       yi |-> VSub(st.yi, VScale(ch, th)),
       W |-> Append(st.W, wh), P |-> Append(st.P, ph), T |-> Append(st.T, th), C |-> Append(st.C, ch),
       und |-> Append(st.und, nul), rets |-> Append(st.rets, ret), ret |-> ret,
       amb |-> st.amb \/ RLe(nw, Tol9) \/ RLe(n2, Tol9)
                \/ (\E j \in 1..p : RLe(RAbs(g[j]), RMul(Tol9, mx)) /\ ~(REq(g[j], Zero) /\ REq(w[j], Zero)))
                \/ (\E j \in nul : RLt(RMul(Tol9, NSumSq(st.X0)), NDot(Xt[j], Xt[j])))]

\* weights with the undetermined entries masked
WDet(W, st) == Force([j \in 1..Len(W) |-> [q \in 1..Len(st.und) |->
                  IF j \in st.und[q] THEN Num(0) ELSE W[j][q]]])

\* quantities of the finished model (W, P, ... hold components as rows)
WMat(st) == Transpose(st.W)
CoefScaled(st) ==
   LET Wm == WMat(st)
       G  == MatMul(st.W, MatMul(NGram(st.X0), Wm))
   IN MatVec(Wm, Solve(G, MatVec(st.W, NMatTVec(st.X0, st.y0))))
Rw(st) == LET Wm == WMat(st) IN MatMul(Wm, Inverse(MatMul(st.P, Wm)))
XEv(st, h) == RMul(Num(100), RDiv(RMul(Norm2(st.T[h]), Norm2(st.P[h])), NSumSq(st.X0)))
YEv(st, h) == RMul(Num(100), RDiv(RMul(Norm2(st.T[h]), RSq(st.C[h])), NDot(st.y0, st.y0)))
=============================================================================
