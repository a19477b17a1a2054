------------------------------ MODULE MC_Capi -------------------------------
(* Design laws of the co-moment index on all small data and option sets.            *)
EXTENDS Capi
CONSTANTS XVals, YVals, N
VARIABLES x, y, d, opts, sc
vars == <<x, y, d, opts, sc>>
O == [mode |-> "cov", center |-> "mean", trim |-> Zero, bias |-> FALSE, order |-> 2, option |-> 1, alpha4 |-> 4,
      std |-> TRUE, fisher |-> TRUE]
W == [q \in 1..6 |-> Num(IF q < 4 THEN 1 ELSE -1)]
Cf(w) == [max_degree |-> d, scaling |-> sc, options |-> opts, weights |-> w, est |-> "arithmetic", o |-> O]
ColOf(v) == [k \in 1..N |-> <<Num(v[k])>>]
NonConst(v) == \E a, b \in 1..N : v[a] # v[b]
Init == /\ x \in {v \in [1..N -> XVals] : NonConst(v)} /\ y \in {v \in [1..N -> YVals] : NonConst(v)}
        /\ d = 2 /\ opts = {1, 2, 3} /\ sc \in BOOLEAN
Next == \/ d < 4 /\ d' = d + 1 /\ UNCHANGED <<x, y, opts, sc>>
        \/ Cardinality(opts) > 1 /\ (\E j \in opts : opts' = opts \ {j}) /\ UNCHANGED <<x, y, d, sc>>
M == CapiMoments(Cf(W), ColOf(x), ColOf(y))
\* every co-moment has a slot of its own
OwnPlace == \A a, b \in Slots(Cf(W)) : Place(a) = Place(b) => a = b
\* the index is linear in the weights: a unit weight picks its co-moment
Picks == \A q \in 1..6 : REq(CapiIndex(Cf([r \in 1..6 |-> IF r = q THEN One ELSE Zero]), ColOf(x), ColOf(y)), M[q])
\* slots beyond the degree or option set do not contribute
Unused == \A q \in 1..6 : (\A s \in Slots(Cf(W)) : Place(s) # q) => REq(M[q], Zero)
\* order 2 alone is the covariance
Degree2 == d = 2 => REq(CapiIndex(Cf(W), ColOf(x), ColOf(y)), CoMom("mean", Zero, FALSE, 1, 1, Col(ColOf(x), 1), Col(ColOf(y), 1)))
\* scaled higher co-moments are invariant under scaling of either variable
Invariant == sc => LET M2 == CapiMoments(Cf(W), [k \in 1..N |-> <<Num(3 * x[k] + 1)>>], [k \in 1..N |-> <<Num(2 * y[k] - 1)>>])
                   IN \A q \in 2..6 : CloseS(M[q], M2[q], Tol9, One)
=============================================================================
