------------------------------- MODULE MC_Sdr -------------------------------
(* Laws of slicing and of the kernels on all small data, grown case by case.        *)
EXTENDS Sdr
CONSTANTS Rowz, YVals, N, H
RowzDef == {<<0, 1>>, <<2, 0>>, <<1, -1>>}
VARIABLES X, y
DX == Force([i \in 1..Len(X) |-> [j \in 1..2 |-> Num(X[i][j])]])
DY == Force([i \in 1..Len(y) |-> Num(y[i])])
n == Len(y)
Init == X = <<>> /\ y = <<>>
Next == /\ n < N
        /\ \E r \in Rowz : \E v \in YVals : X' = Append(X, r) /\ y' = Append(y, v)
Ready == n >= H
SS == Slices(DY, H, FALSE)
Partition == Ready => /\ UNION SS = 1..n
                      /\ \A a, b \in SS : a # b => a \cap b = {}
TiesTogether == Ready => \A i, k \in 1..n : y[i] = y[k] => SliceNo(DY, H)[i] = SliceNo(DY, H)[k]
Ordered == Ready => \A i, k \in 1..n : y[i] < y[k] => SliceNo(DY, H)[i] <= SliceNo(DY, H)[k]
\* slices depend on the ranks only
Ranks == Ready => Slices(MapV(LAMBDA u : RAdd(RMul(u, RSq(u)), Num(7)), DY), H, FALSE) = SS
\* without ties every slice but the last holds floor(n/h) cases
Sizes == (Ready /\ Cardinality({y[i] : i \in 1..n}) = n) =>
            \A i \in 1..n : LET k == SliceNo(DY, H)[i]
                                c == Cardinality({q \in 1..n : SliceNo(DY, H)[q] = k})
                            IN IF k < H THEN c = n \div H ELSE c = n - (H - 1) * (n \div H)
Classes == Ready => Cardinality(Slices(DY, H, TRUE)) = Cardinality({y[i] : i \in 1..n})
\* kernels (metric: covariance, when it is regular)
G == Cov1(DX)
Det2(S) == RSub(RMul(S[1][1], S[2][2]), RMul(S[1][2], S[2][1]))
Regular == n >= 3 /\ Ready /\ ~REq(Det2(G), Zero)
Psd(S) == Inertia(S).neg = 0 \/ REq(Det2(S), Zero)
PsdS(S) == RLe(Zero, S[1][1]) /\ RLe(Zero, S[2][2]) /\ RLe(Zero, Det2(S))
Ker(m) == Kernel(m, DX, DY, SS, ColMeans(DX), G)
Symmetric == Regular => \A m \in {"sir", "save", "dr", "phd", "iht"} : Ker(m) = Transpose(Ker(m))
NonNegative == Regular => \A m \in {"sir", "save", "iht"} : PsdS(Ker(m))
\* variation between the slices is part of the total variation
BetweenWithin == Regular => PsdS(MatSub(MatScale(RDiv(Num(n - 1), Num(n)), G), Ker("sir")))
\* affine equivariance: for x -> A'x + b the kernel becomes A'K A
AM == <<<<Num(2), One>>, <<Num("-1"), One>>>>
DXa == MatAdd(MatMul(DX, AM), Force([i \in 1..n |-> <<Num(5), Num("-3")>>]))
KerA(m) == Kernel(m, DXa, DY, SS, ColMeans(DXa), Cov1(DXa))
Equivariant == Regular => \A m \in {"sir", "save", "dr", "phd"} : KerA(m) = MatTMul(AM, MatMul(Ker(m), AM))
=============================================================================
