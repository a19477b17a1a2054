----------------------------- MODULE MC_Ppdire ------------------------------
(* Laws of extraction by arbitrary directions: whatever the optimiser returns.       *)
EXTENDS Ppdire
CONSTANTS Rowz, N, Dirs
RowzDef == {<<0, 1, 2>>, <<2, 0, -1>>, <<-1, 3, 1>>, <<1, 1, -2>>}
DirsDef == {<<<<1, 1>>, <<0, 1>>, <<0, 1>>>>, <<<<0, 1>>, <<3, 5>>, <<4, 5>>>>, <<<<2, 3>>, <<-1, 3>>, <<2, 3>>>>,
            <<<<3, 5>>, <<0, 1>>, <<-4, 5>>>>, <<<<0, 1>>, <<0, 1>>, <<1, 1>>>>}
VARIABLES X, ws
D(d) == [j \in 1..3 |-> RDiv(Num(d[j][1]), Num(d[j][2]))]
Data == [i \in 1..N |-> [j \in 1..3 |-> Num(X[i][j])]]
St(w) == RunW(Start0(Data), [k \in 1..Len(w) |-> D(w[k])], 1)
S == St(ws)
Init == X \in [1..N -> Rowz] /\ ws = <<>>
Next == /\ Len(ws) < 3 /\ \E d \in Dirs : (~REq(Norm2(MatVec(S.E, D(d))), Zero)) /\ ws' = Append(ws, d)
        /\ UNCHANGED X
h == Len(ws)
Orthogonal == \A a, b \in 1..h : a # b => REq(Dot(S.T[a], S.T[b]), Zero)
Decomposition == \A i \in 1..N : \A j \in 1..3 :
    REq(Data[i][j], RAdd(S.E[i][j], RSum([k \in 1..h |-> RMul(S.T[k][i], S.P[k][j])])))
R == Rot(S.W, S.P, h)
Rotations == \A k \in 1..h : MatVec(Data, R[k]) = S.T[k]
Triangular == \A a, b \in 1..h : (a = b => REq(Dot(S.P[a], S.W[b]), One)) /\ (a > b => REq(Dot(S.P[a], S.W[b]), Zero))
ExplainedBounded == h > 0 => LET ev == RSum([k \in 1..h |-> XEvOf(S.T[k], S.P[k], Data)]) IN RLe(ev, Num(100)) /\ RLe(Zero, ev)
\* component-wise least squares on orthogonal scores is the joint least squares fit
Y == [i \in 1..N |-> Num(i * i - 3)]
JointFit == h > 0 => LET C == [k \in 1..h |-> Ols(S.T[k], Y)]
                         res == VSub(Y, MatVec(Data, BScaled(R, C, h)))
                     IN \A k \in 1..h : REq(Dot(S.T[k], res), Zero)
=============================================================================
