---------------------------- MODULE MC_Location -----------------------------
(* Design model of the concentration steps on integer points of the plane: the
   location is kept as integer sums over a count, so states stay integral.       *)
EXTENDS Location
CONSTANTS Pts, N, MaxK
PtsDef == {<<0, 0>>, <<1, 0>>, <<0, 2>>, <<3, 1>>, <<5, 4>>}
VARIABLES X, sum, cnt, k
vars == <<X, sum, cnt, k>>
XX == Force([i \in 1..N |-> <<Num(X[i][1]), Num(X[i][2])>>])
M  == <<RDiv(Num(sum[1]), Num(cnt)), RDiv(Num(sum[2]), Num(cnt))>>
RECURSIVE ISum(_, _)
ISum(S, c) == IF S = {} THEN 0 ELSE LET j == CHOOSE j \in S : TRUE IN X[j][c] + ISum(S \ {j}, c)
Init == /\ X \in [1..N -> Pts] /\ \A i \in 1..(N - 1) : X[i][1] * 10 + X[i][2] <= X[i + 1][1] * 10 + X[i + 1][2]
        /\ \E a \in Pts : sum = a /\ cnt = 1
        /\ k = 0
Next == /\ k < MaxK
        /\ LET S == LtsSet(XX, M) IN /\ sum' = <<ISum(S, 1), ISum(S, 2)>> /\ cnt' = Cardinality(S)
        /\ k' = k + 1 /\ X' = X
\* a concentration step never increases the trimmed objective (unless ties at the
\* cut-off distance let more than h cases into the subset)
Descent == [][Cardinality(LtsSet(XX, M)) = LtsH(N) => RLe(LtsObj(XX, M)', LtsObj(XX, M))]_vars
\* the step computed by LtsStep is the mean of the selected cases
StepAgrees == k < MaxK => LET S == LtsSet(XX, M) IN
      Cardinality(S) >= LtsH(N) /\ Close(LtsStep(XX, M)[1], RDiv(Num(ISum(S, 1)), Num(Cardinality(S))), Tol12)
\* Weiszfeld never increases the L1 objective (witness used against l1median)
WDescent == k = 0 => RLe(L1Obj(XX, Weiszfeld(XX, M)), RAdd(L1Obj(XX, M), Tol9))
Spec == Init /\ [][Next]_vars
=============================================================================
