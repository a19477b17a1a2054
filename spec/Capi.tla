-------------------------------- MODULE Capi --------------------------------
(* Co-moment analysis projection index: a weighted sum of the co-moments up to
   max_degree.  Slot 1: order 2; slots 2-3: order 3, options 1-2; slots 4-6: order 4,
   options 1-3.  c = [max_degree, scaling, options (a set), weights, est, o].        *)
EXTENDS Energy

Slots(c) == {<<2, 1>>} \cup (IF c.max_degree > 2 THEN {<<3, j>> : j \in c.options \cap (1..2)} ELSE {})
                       \cup (IF c.max_degree > 3 THEN {<<4, j>> : j \in c.options \cap (1..3)} ELSE {})
Place(s) == CASE s[1] = 2 -> 1 [] s[1] = 3 -> 1 + s[2] [] OTHER -> 3 + s[2]
ModeOf(c, k) == IF ~c.scaling THEN "com" ELSE IF k = 2 THEN "cov" ELSE IF k = 3 THEN "cos" ELSE "cok"
CoMoment(c, s, x, y) ==
   LET o == [c.o EXCEPT !.mode = ModeOf(c, s[1]), !.order = s[1], !.option = s[2]]
   IN IF c.est = "distance" THEN EnergyMoment(o, x, y) ELSE Moment(o, Col(x, 1), Col(y, 1))
CapiMoments(c, x, y) == Force([q \in 1..6 |-> LET S == {s \in Slots(c) : Place(s) = q}
                                              IN IF S = {} THEN Zero ELSE CoMoment(c, CHOOSE s \in S : TRUE, x, y)])
CapiIndex(c, x, y) == Dot(c.weights, CapiMoments(c, x, y))
=============================================================================
