------------------------------ MODULE MC_Life -------------------------------
(* Two estimator objects side by side, an implementation-shaped design: parameters
   live in a store shared by default (the library's signatures have mutable defaults),
   fitting writes attributes one after the other and using reads them.  The design
   must refine Life: what is read belongs to the last fit of that very object.        *)
EXTENDS Life, FiniteSets
CONSTANTS NPar, Data, MaxOps
VARIABLES objs,   \* the abstract objects
          attr,   \* attr[q][a] = what attribute a of object q was computed from
          seen,   \* what the last use read: set of <<object, meaning>>
          n, hist
vars == <<objs, attr, seen, n, hist>>
Attrs == {"scores", "coef", "scale"}
NoAttr == [a \in Attrs |-> Unfitted]
Init == objs = Init0(NPar) /\ attr = <<NoAttr, NoAttr>> /\ seen = {} /\ n = 0 /\ hist = <<>>
Do(op) ==
   /\ n < MaxOps
   /\ op[1] \in {"use"} => CanUse(objs[op[2]])
   /\ objs' = Apply(objs, op)
   /\ attr' = CASE op[1] = "fit" -> [attr EXCEPT ![op[2]] = [a \in Attrs |-> [on |-> TRUE, par |-> objs[op[2]].par, d |-> op[3]]]]
                [] op[1] = "clone" -> [attr EXCEPT ![3 - op[2]] = NoAttr]
                [] op[1] = "pickle" -> [attr EXCEPT ![3 - op[2]] = attr[op[2]]]
                [] OTHER -> attr
   /\ seen' = IF op[1] = "use" THEN {attr[op[2]][a] : a \in Attrs} ELSE {}
   /\ n' = n + 1
   /\ hist' = Append(hist, op)
Next == \E op \in Ops(NPar, Data) : Do(op)
\* all attributes read by one use come from one fit
OneFit == Cardinality(seen) <= 1
\* ... the last one of that object
LastFit == seen # {} => seen = {Meaning(objs[hist[Len(hist)][2]])}
\* attributes follow the abstract object
Refines == \A q \in {1, 2} : \A a \in Attrs : attr[q][a] = Meaning(objs[q])
\* parameters change by set (and clone/pickle of the other object) only; only one object at a time
Local == [][\A q \in {1, 2} : objs'[q] # objs[q] =>
              LET op == hist'[Len(hist')]
              IN (op[1] \in {"set", "fit"} /\ op[2] = q) \/ (op[1] \in {"clone", "pickle"} /\ op[2] = 3 - q)]_vars
ParamsKept == [][\A q \in {1, 2} : objs'[q].par # objs[q].par => hist'[Len(hist')][1] \in {"set", "clone", "pickle"}]_vars
View == <<objs, attr, seen, n, IF hist = <<>> THEN <<>> ELSE hist[Len(hist)]>>
=============================================================================
