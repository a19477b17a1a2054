-------------------------------- MODULE Life --------------------------------
(* The life of estimator objects.  Every estimator of the library is a pair of the
   parameters the user has set and, once fitted, the model that belongs to the
   parameters and data of the last fit.  Nothing else may be remembered: this module
   is the common state machine of all estimators, two of them side by side.          *)
EXTENDS Integers, Sequences, TLC

Unfitted     == [on |-> FALSE, par |-> <<>>, d |-> ""]
New(par)     == [par |-> par, fit |-> Unfitted]
SetPar(o, k, v) == [o EXCEPT !.par[k] = v]
Fit(o, d)    == [o EXCEPT !.fit = [on |-> TRUE, par |-> o.par, d |-> d]]
Clone(o)     == New(o.par)                   \* sklearn.base.clone
Pickle(o)    == o                            \* round trip through pickle: the same object again
CanUse(o)    == o.fit.on
Meaning(o)   == o.fit                        \* what predictions, scores and attributes depend on

\* one operation on a pair of objects: <<name, object, argument>>
Apply(objs, op) ==
   LET q == op[2]
       other == 3 - q
   IN CASE op[1] = "set"    -> [objs EXCEPT ![q] = SetPar(@, op[3], 1 - @.par[op[3]])]
        [] op[1] = "fit"    -> [objs EXCEPT ![q] = Fit(@, op[3])]
        [] op[1] = "clone"  -> [objs EXCEPT ![other] = Clone(objs[q])]
        [] op[1] = "pickle" -> [objs EXCEPT ![other] = Pickle(objs[q])]
        [] OTHER            -> objs          \* use, wrong use
Ops(NPar, Data) ==
   ({"set"} \X {1, 2} \X (1..NPar)) \cup ({"fit"} \X {1, 2} \X Data) \cup ({"use"} \X {1, 2} \X {"N", "one"})
   \cup ({"wrong"} \X {1, 2} \X {"N"}) \cup ({"clone", "pickle"} \X {1, 2} \X {""})
Init0(NPar) == <<New([k \in 1..NPar |-> 0]), New([k \in 1..NPar |-> 0])>>
=============================================================================
