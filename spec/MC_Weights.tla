----------------------------- MODULE MC_Weights -----------------------------
(* Laws of the weight functions on the grid k/4 for several cut-off triples.      *)
EXTENDS Weights
CONSTANT K
Cuts == {<<1, 2, 4>>, <<2, 3, 5>>, <<3, 8, 12>>, <<7, 8, 13>>}    \* quarters
VARIABLES k, fun, cut
Init == k = 0 /\ fun \in {"Fair", "Huber", "Hampel"} /\ cut \in Cuts
Next == k < K /\ k' = k + 1 /\ UNCHANGED <<fun, cut>>
Q(n) == RDiv(Num(n), Num(4))
V(n) == W(fun, Q(n), Q(cut[1]), Q(cut[2]), Q(cut[3]))
InUnit == RLe(Zero, V(k)) /\ RLe(V(k), One)
Decreasing == RLe(V(k + 1), V(k))
Even == REq(V(-k), V(k))
CoreOne == (fun # "Fair" /\ k <= cut[1]) => REq(V(k), One)
ZeroOne == k = 0 => REq(V(k), One)
Redescends == (fun = "Hampel" /\ k >= cut[3]) => REq(V(k), Zero)
\* r * w(r) (the influence) never exceeds the first cut-off for Huber and Hampel
BoundedInfluence == fun # "Fair" => RLe(RMul(Q(k), V(k)), Q(cut[1]))
StickSums == k > 0 => Close(RSum(Force([j \in 1..k |-> BrokenStick(k, j)])), One, Tol12)
=============================================================================
