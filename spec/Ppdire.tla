------------------------------- MODULE Ppdire -------------------------------
(* Projection pursuit dimension reduction.  A run is a sequence of unit directions;
   each direction is applied to the deflated data, and the data are deflated by the
   resulting score.  Everything a fitted object reports is a function of the data
   and the directions found.                                                        *)
EXTENDS Capi, Scaler

\* one extraction step: state [E, W, T, P] (W, T, P as sequences of columns)
Start0(Xs) == [E |-> Xs, W |-> <<>>, T |-> <<>>, P |-> <<>>]
Extract(st, w) ==
   LET t == MatVec(st.E, w)
       n2 == Norm2(t)
       q == MapV(LAMBDA u : RDiv(u, n2), MatTVec(st.E, t))
   IN [E |-> MatSub(st.E, Outer(t, q)), W |-> Append(st.W, w), T |-> Append(st.T, t), P |-> Append(st.P, q)]
RECURSIVE RunW(_, _, _)
RunW(st, ws, k) == IF k > Len(ws) THEN st ELSE RunW(Extract(st, ws[k]), ws, k + 1)

\* rotations R with T = Xs R; P'W is upper triangular with unit diagonal
RECURSIVE Rot(_, _, _)
Rot(W, P, k) ==      \* columns r_1..r_k
   IF k = 0 THEN <<>>
   ELSE LET prev == Rot(W, P, k - 1)
            RECURSIVE Sub(_, _)
            Sub(v, j) == IF j >= k THEN v ELSE Sub(VSub(v, VScale(Dot(P[j], W[k]), prev[j])), j + 1)
        IN Append(prev, Sub(W[k], 1))

\* the projection index of a score
Index(ix, t, ys) ==
   IF ix.kind = "capi" THEN CapiIndex(ix.c, ColMat(t), ColMat(ys))
   ELSE IF ix.est = "distance" THEN EnergyMoment(ix.o, ColMat(t), ColMat(IF NeedsY(ix.o.mode) THEN ys ELSE t))
   ELSE Moment(ix.o, t, IF NeedsY(ix.o.mode) THEN ys ELSE t)
Objective(ix, sq, t, ys) == LET v == Index(ix, t, ys) IN IF sq THEN RSq(v) ELSE v

\* ndir equally spaced directions of the half plane
Pi == Num("3.14159265358979323846264338327950288")
Angle(k, ndir) == RDiv(RMul(Pi, Num(k)), Num(ndir))
Direction(k, ndir) == Force(<<RCos(Angle(k, ndir)), RSin(Angle(k, ndir))>>)

\* regression of the response on one score
Ols(t, ys) == RDiv(Dot(t, ys), Norm2(t))
CheckLoss(tau, r) == RSum(MapV(LAMBDA u : IF RLt(u, Zero) THEN RMul(RSub(tau, One), u) ELSE RMul(tau, u), r))
\* coefficients on scaled and original scale after k components
BScaled(R, C, k) == LET RECURSIVE F(_)
                        F(j) == IF j = 1 THEN VScale(C[1], R[1]) ELSE VAdd(F(j - 1), VScale(C[j], R[j]))
                    IN F(k)
XEvOf(t, q, Xs) == RDiv(RMul(Num(100), RMul(Norm2(t), Norm2(q))), RSum([i \in 1..Rows(Xs) |-> Norm2(Xs[i])]))
=============================================================================
