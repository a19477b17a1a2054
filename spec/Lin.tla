-------------------------------- MODULE Lin --------------------------------
(* Vectors, matrices, exact linear algebra and comparison up to a tolerance.
   A matrix is a sequence of rows; a row is a sequence of numbers.            *)
EXTENDS Rat

Zero == Num(0)
One  == Num(1)
Two  == Num(2)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
RSq(a)     == RMul(a, a)
Tol9 == Num("1/1000000000")
Tol7 == Num("1/10000000")
Tol6 == Num("1/1000000")
Tol5 == Num("1/100000")
Tol4 == Num("1/10000")
Tol12 == Num("1/1000000000000")

RECURSIVE RMaxSeq(_)
RMaxSeq(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], RMaxSeq(Tail(s)))
RMinSeq(s) == RNeg(RMaxSeq(Force([i \in 1..Len(s) |-> RNeg(s[i])])))

(* --------------------------- shapes --------------------------------------- *)
Rows(M)        == Len(M)
Cols(M)        == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Col(M, j)      == Force([i \in 1..Len(M) |-> M[i][j]])
ConstVec(n, c) == Force([i \in 1..n |-> c])
ZeroMat(n, p)  == Force([i \in 1..n |-> [j \in 1..p |-> Zero]])
Ident(n)       == Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
MapV(Op(_), v) == Force([i \in 1..Len(v) |-> Op(v[i])])
MapM(Op(_), M) == Force([i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> Op(M[i][j])]])
MatAdd(A, B)   == Force([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MatSub(A, B)   == Force([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MatScale(k, A) == Force([i \in 1..Len(A) |-> VScale(k, A[i])])
MatTMul(A, B)  == MatMul(Transpose(A), B)                       \* A'B
MatTVec(A, v)  == MatVec(Transpose(A), v)                       \* A'v
Outer(u, v)    == Force([i \in 1..Len(u) |-> VScale(u[i], v)])
RowsOf(M, idx) == Force([k \in 1..Len(idx) |-> M[idx[k]]])
ColsOf(M, idx) == Force([i \in 1..Len(M) |-> [k \in 1..Len(idx) |-> M[i][idx[k]]]])
Norm2(v)       == Dot(v, v)
Norm(v)        == RSqrt(Norm2(v))
Trace(M)       == RSum(Force([i \in 1..Len(M) |-> M[i][i]]))
Diag(M)        == Force([i \in 1..Len(M) |-> M[i][i]])
ColMat(v)      == Force([i \in 1..Len(v) |-> <<v[i]>>])
AllFinV(v)     == \A i \in 1..Len(v) : IsFin(v[i])
AllFinM(M)     == \A i \in 1..Len(M) : AllFinV(M[i])
MaxAbsV(v)     == IF Len(v) = 0 THEN Zero
                  ELSE RMaxSeq(Force([i \in 1..Len(v) |-> RAbs(v[i])]))
MaxAbsM(M)     == IF Len(M) = 0 \/ Cols(M) = 0 THEN Zero
                  ELSE RMaxSeq(Force([i \in 1..Len(M) |-> MaxAbsV(M[i])]))

(* --------------------------- comparison ----------------------------------- *)
\* |a-b| <= tol * max(1, scale, |a|, |b|); nan agrees with nan only, inf with inf
CloseS(a, b, tol, scale) ==
   IF IsNaN(a) \/ IsNaN(b) THEN IsNaN(a) /\ IsNaN(b)
   ELSE IF ~IsFin(a) \/ ~IsFin(b) THEN REq(a, b)
   ELSE RLe(RAbs(RSub(a, b)), RMul(tol, RMax(scale, RMax(RAbs(a), RAbs(b)))))
Close(a, b, tol)  == CloseS(a, b, tol, One)
CloseR(a, b, tol) == CloseS(a, b, tol, Zero)                     \* purely relative
CloseVS(u, v, tol, sc) == /\ Len(u) = Len(v)
                          /\ \A i \in 1..Len(u) : CloseS(u[i], v[i], tol, sc)
CloseV(u, v, tol) == CloseVS(u, v, tol, One)
CloseMS(A, B, tol, sc) == /\ Len(A) = Len(B)
                          /\ \A i \in 1..Len(A) : CloseVS(A[i], B[i], tol, sc)
CloseM(A, B, tol) == CloseMS(A, B, tol, One)
\* scale-aware: relative to the largest entry of the expected value
CloseVx(u, v, tol) == CloseVS(u, v, tol, IF AllFinV(v) THEN MaxAbsV(v) ELSE One)
CloseMx(A, B, tol) == CloseMS(A, B, tol, IF AllFinM(B) THEN MaxAbsM(B) ELSE One)

(* --------------------------- elimination ----------------------------------- *)
\* index in lo..Len of the row with the largest |entry| in column j
PivotRow(A, j, lo) == CHOOSE r \in lo..Len(A) :
                        \A q \in lo..Len(A) : RLe(RAbs(A[q][j]), RAbs(A[r][j]))
SwapRows(A, a, b) == IF a = b THEN A ELSE [A EXCEPT ![a] = A[b], ![b] = A[a]]

\* forward elimination of the augmented matrix; result is reduced row echelon
RECURSIVE GJ(_, _)
GJ(A, k) ==
   IF k > Len(A) THEN A
   ELSE LET r == PivotRow(A, k, k)
            B == SwapRows(A, k, r)
            piv == B[k][k]
            row == VScale(RDiv(One, piv), B[k])
            C == Force([i \in 1..Len(B) |->
                     IF i = k THEN row ELSE VSub(B[i], VScale(B[i][k], row))])
        IN GJ(C, k + 1)

\* solution of A x = b for non-singular A (b a vector)
Solve(A, b) == LET n == Len(A)
                   R == GJ(Force([i \in 1..n |-> A[i] \o <<b[i]>>]), 1)
               IN Col(R, n + 1)
\* A X = B with B a matrix
SolveM(A, B) == LET n == Len(A)
                    R == GJ(Force([i \in 1..n |-> A[i] \o B[i]]), 1)
                IN Force([i \in 1..n |-> SubSeq(R[i], n + 1, Len(R[i]))])
Inverse(A) == SolveM(A, Ident(Len(A)))

(* Sylvester inertia: number of negative / positive eigenvalues of a symmetric
   matrix, by symmetric elimination (always pivoting on the largest diagonal). *)
RECURSIVE Inertia(_)
Inertia(S) ==
   IF Len(S) = 0 THEN [neg |-> 0, pos |-> 0]
   ELSE LET n == Len(S)
            k == CHOOSE r \in 1..n : \A q \in 1..n : RLe(RAbs(S[q][q]), RAbs(S[r][r]))
            d == S[k][k]
            keep == SelectSeq([i \in 1..n |-> i], LAMBDA i : i # k)
            m == n - 1
            T == Force([a \in 1..m |-> [b \in 1..m |->
                    RSub(S[keep[a]][keep[b]],
                         RDiv(RMul(S[keep[a]][k], S[k][keep[b]]), d))]])
            rest == Inertia(T)
        IN [neg |-> rest.neg + (IF RLt(d, Zero) THEN 1 ELSE 0),
            pos |-> rest.pos + (IF RLt(Zero, d) THEN 1 ELSE 0)]
\* number of eigenvalues of the symmetric matrix S strictly above c
NumAbove(S, c) == Inertia(MatSub(S, MatScale(c, Ident(Len(S))))).pos

(* --------------------------- indices ---------------------------------------- *)
Idx(n) == Force([i \in 1..n |-> i])
SeqOfSet(S) == LET RECURSIVE F(_)
                   F(T) == IF T = {} THEN <<>>
                           ELSE LET m == CHOOSE x \in T : \A y \in T : x <= y
                                IN <<m>> \o F(T \ {m})
               IN F(S)
SeqSet(s) == {s[i] : i \in 1..Len(s)}
=============================================================================
