----------------------------- MODULE MC_Scaler ------------------------------
(* Design model of the scaler object: a history of fit / transform / inverse
   calls on small integer data.  States hold integers only; the estimates are
   computed from them by the same operators that judge the implementation.     *)
EXTENDS Scaler

CONSTANTS Vals, NRows, MaxSteps

Opts == [center : {"None", "mean", "median"}, scale : {"None", "std", "mad"}, trim : {0, 1}]
Col1 == [1..NRows -> Vals]

VARIABLES opt, tr, nw, phase, steps
vars == <<opt, tr, nw, phase, steps>>

Mat(c) == Force([i \in 1..NRows |-> <<Num(c[i])>>])
O == [center |-> opt.center, scale |-> opt.scale,
      trimming |-> IF opt.trim = 0 THEN Zero ELSE Num("1/4")]
C == Centers(O, Mat(tr))
S == Scales(O, Mat(tr))

Init == /\ opt \in Opts /\ tr \in Col1 /\ nw = tr /\ phase = "new" /\ steps = 0
Fit  == phase = "new" /\ phase' = "fitted" /\ UNCHANGED <<opt, tr, nw, steps>>
Use(c) == /\ phase # "new" /\ steps < MaxSteps
          /\ nw' = c /\ phase' = "used" /\ steps' = steps + 1
          /\ UNCHANGED <<opt, tr>>
Next == Fit \/ \E c \in Col1 : Use(c)

\* scaling then un-scaling returns the data exactly, for every data
RoundTrip == phase = "used" => CloseM(Backward(C, S, Forward(C, S, Mat(nw))), Mat(nw), Num("1/1000000000000000000000000000000"))
\* the estimates only depend on the training data, not on the data scaled later
StoredOnly == phase = "used" => Centers(O, Mat(tr)) = C
\* shifting and scaling the data shifts and scales the estimates
Affine == phase = "fitted" =>
   LET T2 == Force([i \in 1..NRows |-> <<Num(5 - 3 * tr[i])>>])
   IN /\ opt.center # "None" => Close(Centers(O, T2)[1], RSub(Num(5), RMul(Num(3), C[1])), Num("1/1000000000000000000000000000000"))
      /\ opt.scale # "None"  => Close(Scales(O, T2)[1], RMul(Num(3), S[1]), Num("1/1000000000000000000000000000000"))
\* the order of the cases is irrelevant
Exchange == phase = "fitted" =>
   LET T2 == Force([i \in 1..NRows |-> <<Num(tr[NRows + 1 - i])>>])
   IN Close(Centers(O, T2)[1], C[1], Tol12) /\ Close(Scales(O, T2)[1], S[1], Tol12)
\* the centred training data have centre zero and, unless constant, unit scale
Standard == phase = "fitted" =>
   LET Z == Forward(C, S, Mat(tr))
   IN /\ opt.center # "None" => Close(Centers(O, Z)[1], Zero, Tol12)
      /\ (opt.scale # "None" /\ ~REq(S[1], Zero)) => Close(Scales(O, Z)[1], One, Tol12)
=============================================================================
