-------------------------------- MODULE Stats -------------------------------
(* Column statistics.  nan marks a missing entry; "Obs" drops them.            *)
EXTENDS Lin

Obs(v) == SelectSeq(v, LAMBDA x : ~IsNaN(x))
NaN == Num("nan")

Mean(v) == RDiv(RSum(v), Num(Len(v)))
NanMean(v) == LET o == Obs(v) IN IF Len(o) = 0 THEN NaN ELSE Mean(o)

\* median of a sorted sequence
MedianSorted(s) == LET n == Len(s) IN
   IF n % 2 = 1 THEN s[(n + 1) \div 2]
   ELSE RDiv(RAdd(s[n \div 2], s[n \div 2 + 1]), Two)
Median(v) == MedianSorted(RSort(v))
NanMedian(v) == LET o == Obs(v) IN IF Len(o) = 0 THEN NaN ELSE Median(o)

MadConst == Num("0.6744897501960817")
\* median absolute deviation from the median over the consistency factor c
MadC(v, c) == LET o == Obs(v) IN
   IF Len(o) = 0 THEN NaN
   ELSE LET m == Median(o)
        IN RDiv(Median(Force([i \in 1..Len(o) |-> RAbs(RSub(o[i], m))])), c)
Mad(v) == MadC(v, MadConst)

\* moments about the mean; var0 divides by n
Var0(v) == LET m == Mean(v) IN Mean(Force([i \in 1..Len(v) |-> RSq(RSub(v[i], m))]))
NanVar0(v) == LET o == Obs(v) IN IF Len(o) = 0 THEN NaN ELSE Var0(o)
Std0(v) == RSqrt(NanVar0(v))

\* mean after dropping floor(t*n) entries from each end
TrimMean(v, t) == LET n == Len(v)
                      k == RFloor(RMul(t, Num(n)))
                      s == RSort(v)
                  IN Mean(SubSeq(s, k + 1, n - k))
TrimStd(v, t)  == LET m == TrimMean(v, t)
                  IN RSqrt(TrimMean(Force([i \in 1..Len(v) |-> RSq(RSub(v[i], m))]), t))

\* k-th smallest
Kth(v, k) == RSort(v)[k]
=============================================================================
