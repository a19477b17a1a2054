------------------------------ MODULE MC_Plot -------------------------------
(* Laws of the plot contents, for all small weight vectors and coefficient vectors.     *)
EXTENDS Plot
CONSTANTS N, WVals, BVals, Cuts
VARIABLES w, b, t, done
vars == <<w, b, t, done>>
\* weights and coefficients grow case by case / variable by variable
Init == w = <<>> /\ b = <<>> /\ t \in Cuts /\ done = FALSE
Next == \/ ~done /\ Len(w) < N /\ (\E v \in WVals : w' = Append(w, v)) /\ UNCHANGED <<b, t, done>>
        \/ ~done /\ Len(b) < N /\ (\E v \in BVals : b' = Append(b, v)) /\ UNCHANGED <<w, t, done>>
        \/ ~done /\ Len(w) = Len(b) /\ done' = TRUE /\ UNCHANGED <<w, b, t>>
W == [k \in 1..Len(w) |-> RDiv(Num(w[k]), Num(2))]
B == [k \in 1..Len(b) |-> Num(b[k])]
C == RDiv(Num(t), Num(4))
P == [k \in 1..Len(w) |-> <<Num(k), W[k]>>]
\* every case is drawn exactly once, in one group
EveryCaseOnce == /\ UNION {Members(W, g) : g \in Groups} = 1..Len(w)
                 /\ \A g, h \in Groups : g # h => Members(W, g) \cap Members(W, h) = {}
\* truncated charts keep the extremes, in increasing order, and can be labelled
V == KeptValues(B, C)
Ordered == \A q, r \in 1..Len(V) : q < r => RLe(V[q], V[r])
KeepsExtremes == Len(b) > 0 /\ t > 0 => /\ REq(V[1], RMinSeq(B)) /\ REq(V[Len(V)], RMaxSeq(B))
Labelled == Len(b) \in 1..4 /\ done => \E lab \in [1..Len(V) -> 1..Len(b)] : GoodLabels(B, C, lab)
AtMost == Len(V) <= Len(b) /\ (NTrunc(Len(b), C) * 2 <= Len(b) => Len(V) = 2 * NTrunc(Len(b), C))
=============================================================================
