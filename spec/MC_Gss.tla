------------------------------- MODULE MC_Gss -------------------------------
(* The radial weights lie in [0, 1] (ss: 1/d), leave the inner half untouched and
   never let a farther case count for more, for every vector of integer norms.   *)
EXTENDS Gss
CONSTANTS Vals, N, P
VARIABLES d, fun
Init == /\ d \in [1..N -> Vals] /\ \A k \in 1..(N - 1) : d[k] <= d[k + 1]
        /\ fun \in {"ss", "quad", "winsor", "ball", "shell", "linear_redescending"}
Next == FALSE /\ UNCHANGED <<d, fun>>
DD == Force([k \in 1..N |-> Num(d[k])])
X == Xi(fun, DD, P)
V(k) == CHOOSE v \in X[k] : \A u \in X[k] : RLe(u, v)
Bounded == fun # "ss" => \A k \in 1..N : RLe(Zero, V(k)) /\ RLe(V(k), One)
InnerKept == fun \in {"quad", "winsor", "ball", "linear_redescending"} =>
               \A k \in 1..N : RLe(DD[k], HMed(DD, P)) => Close(V(k), One, Tol12)
Monotone == fun # "shell" => \A k \in 1..(N - 1) : RLe(V(k + 1), RAdd(V(k), Tol12))
\* the transformed radius of winsor and ss is bounded by the cut-off
BoundedRadius == fun = "winsor" => \A k \in 1..N : RLe(RMul(DD[k], V(k)), HMed(DD, P))
=============================================================================
