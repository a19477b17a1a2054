------------------------------- MODULE T_C10 --------------------------------
(* Trace validation of estimator histories.  The specification state is the pair of
   abstract objects of Life; every observation is compared with that of a fresh object
   of the parameters and data the specification says the present model belongs to.    *)
EXTENDS Life, Lin
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, objs

\* observations: records name -> [shape, v]
SameObs(a, b, names) ==
   UNION {IF f \notin DOMAIN a THEN {"missing:" \o f}
          ELSE IF a[f].shape # b[f].shape THEN {"shape:" \o f}
          ELSE IF ~CloseVS(a[f].v, b[f].v, Tol4, IF AllFinV(b[f].v) THEN RMax(One, MaxAbsV(b[f].v)) ELSE One) THEN {"differs:" \o f} ELSE {} : f \in names}
\* iterations amplify rounding, which depends on the memory layout: ref is a fresh fit to the
\* row-major array, ref2 to the column-major one
SameEither(e, names) == LET f1 == SameObs(e.obs, e.ref, names)
                        IN IF f1 = {} THEN {} ELSE IF SameObs(e.obs, e.ref2, names) = {} THEN {} ELSE f1
\* case weights of new cases are computed when asked for, with the weight function set at that moment;
\* everything else belongs to the last fit also after parameters have been changed
Claimed(o, names) == IF o.par = o.fit.par THEN names ELSE names \ {"weightnewx"}
Fails(e) ==
   CASE e.ev = "new" -> {}
     [] e.ev = "op" ->
        LET q == e.op[2]
            after == Apply(objs, e.op)
            m == Meaning(after[q])
            par == (IF e.params THEN {} ELSE {"parameters-changed"}) \cup (IF e.inputs THEN {} ELSE {"data-changed"})
            key == IF e.refon = m.on /\ (m.on => e.refpar = m.par /\ e.refd = m.d) THEN {} ELSE {"driver-out-of-step"}
        IN CASE e.op[1] = "fit" -> par \cup key \cup (IF e.refout # "ok" THEN (IF e.strict THEN {"fresh-fit-raised"} ELSE IF e.out = "ok" THEN {"fitted-what-a-fresh-one-rejects"} ELSE {})
                                            ELSE IF e.out # "ok" THEN {"fit-raised"}
                                            ELSE SameEither(e, DOMAIN e.ref))
             [] e.op[1] = "use" -> par \cup key \cup
                                   (IF ~CanUse(after[q]) THEN (IF e.out = "ok" THEN {"used-before-fit"} ELSE {})
                                    ELSE IF e.refout # "ok" THEN (IF e.strict THEN {"fresh-use-raised"} ELSE IF e.out = "ok" THEN {"used-what-a-fresh-one-rejects"} ELSE {})
                                    ELSE IF e.out # "ok" THEN {"use-raised"}
                                    ELSE SameEither(e, Claimed(after[q], DOMAIN e.ref)))
             [] e.op[1] = "wrong" -> par \cup (IF e.out = "ok" THEN {"wrong-number-of-variables-accepted"} ELSE {})
             [] OTHER -> par
     [] e.ev = "compose" -> IF e.out # "ok" THEN {"composition-raised"} ELSE SameObs(e.obs, e.ref, DOMAIN e.ref)
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0 /\ objs = Init0(2)
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o (IF e.ev = "op" THEN e.op[1] ELSE e.ev) \o "|" \o ToString(bad))
              /\ objs' = IF e.ev = "op" THEN Apply(objs, e.op) ELSE objs
        /\ i' = i + 1 /\ s' = s
=============================================================================
