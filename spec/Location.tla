------------------------------ MODULE Location ------------------------------
(* Multivariate location: the spatial (L1) median and the k-step LTS estimator.
   Missing entries (nan) are left out of every distance.                        *)
EXTENDS Stats

Dist2(x, a) == RSum(Force([j \in 1..Len(x) |-> IF IsNaN(x[j]) THEN Zero ELSE RSq(RSub(x[j], a[j]))]))
Dists2(X, a) == Force([i \in 1..Rows(X) |-> Dist2(X[i], a)])
Dists(X, a)  == Force([i \in 1..Rows(X) |-> RSqrt(Dist2(X[i], a))])

(* ---- L1 median: minimiser of the sum of distances --------------------------- *)
L1Obj(X, a) == RSum(Dists(X, a))

\* one Weiszfeld step: it never increases the objective, and only a minimiser is
\* a fixed point (away from the data points)
Weiszfeld(X, a) ==
   LET d == MapV(LAMBDA u : RMax(u, Tol12), Dists(X, a))
   IN Force([j \in 1..Len(a) |->
        LET o == {i \in 1..Rows(X) : ~IsNaN(X[i][j])}
            os == SeqOfSet(o)
        IN RDiv(RSum(Force([k \in 1..Len(os) |-> RDiv(X[os[k]][j], d[os[k]])])),
                RSum(Force([k \in 1..Len(os) |-> RDiv(One, d[os[k]])])))])
RECURSIVE WIter(_, _, _)
WIter(X, a, k) == IF k = 0 THEN a ELSE WIter(X, Weiszfeld(X, a), k - 1)

ColMedians(X) == Force([j \in 1..Cols(X) |-> NanMedian(Col(X, j))])
\* points every minimiser has to beat
L1Rivals(X, a) == {WIter(X, a, 12), WIter(X, ColMedians(X), 8)}

(* ---- concentration step of k-step LTS --------------------------------------- *)
LtsH(n) == (n + 1) \div 2
LtsSet(X, m) == LET d == Dists2(X, m)
                    cut == Kth(d, LtsH(Rows(X)))
                IN {i \in 1..Rows(X) : RLe(d[i], cut)}
LtsStep(X, m) == LET S == SeqOfSet(LtsSet(X, m))
                 IN Force([j \in 1..Cols(X) |-> NanMean(Force([k \in 1..Len(S) |-> X[S[k]][j]]))])
\* sum of the h smallest squared distances
LtsObj(X, m) == LET d == RSort(Dists2(X, m)) IN RSum(SubSeq(d, 1, LtsH(Rows(X))))
\* a case so close to the cut-off that floating point may put it on either side
LtsAmbiguous(X, m) ==
   LET d == Dists2(X, m)
       cut == Kth(d, LtsH(Rows(X)))
   IN \E i \in 1..Rows(X) : ~REq(d[i], cut) /\ RLe(RAbs(RSub(d[i], cut)), RMul(Tol9, RAdd(cut, Num("1/1000000000"))))
\* exact ties that are not duplicates of the same case
LtsTies(X, m) ==
   LET d == Dists2(X, m)
       cut == Kth(d, LtsH(Rows(X)))
   IN \E i, k \in 1..Rows(X) : X[i] # X[k] /\ REq(d[i], cut) /\ REq(d[k], cut)
=============================================================================
