------------------------------- MODULE T_C17 --------------------------------
(* Trace validation of plots: the artists found on the axes against what the model and
   the request say must be there.                                                      *)
EXTENDS Plot
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

SamePoint(p, q) == Len(p) = 2 /\ Len(q) = 2 /\ CloseS(p[1], q[1], Tol9, One) /\ CloseS(p[2], q[2], Tol9, One)
\* the drawn points of a group are the expected ones, as bags
SameBag(D, Ex) == /\ Len(D) = Len(Ex)
                  /\ \A q \in 1..Len(Ex) : Cardinality({r \in 1..Len(D) : SamePoint(D[r], Ex[q])})
                                           = Cardinality({r \in 1..Len(Ex) : SamePoint(Ex[r], Ex[q])})
Pick(P, K) == LET o == SeqOfSet(K) IN Force([q \in 1..Len(o) |-> P[o[q]]])
\* all drawn points with this colour and marker
Drawn(e, col, mk) == LET G == {q \in 1..Len(e.scatter) : e.scatter[q].color = col /\ e.scatter[q].marker = mk}
                         RECURSIVE Cat(_)
                         Cat(S) == IF S = {} THEN <<>> ELSE LET q == CHOOSE x \in S : TRUE IN e.scatter[q].pts \o Cat(S \ {q})
                     IN Cat(G)
NDrawn(e) == LET RECURSIVE Sum(_)
                 Sum(q) == IF q > Len(e.scatter) THEN 0 ELSE Len(e.scatter[q].pts) + Sum(q + 1)
             IN Sum(1)
\* names: every name once, at the point of its own case
NamesOk(e, P, names) == \A k \in 1..Len(names) :
   Cardinality({q \in 1..Len(e.notes) : e.notes[q].text = names[k]}) = 1
   /\ \E q \in 1..Len(e.notes) : e.notes[q].text = names[k] /\ SamePoint(e.notes[q].xy, P[k])
NNames(e) == (IF e.train /\ e.named THEN Len(e.names) ELSE 0) + (IF e.new /\ e.namedv THEN Len(e.namesv) ELSE 0)
Scatter(e) ==
   LET wt == IF e.weighted THEN e.w ELSE ConstVec(Len(e.P), One)
       wn == IF e.weighted THEN e.wv ELSE ConstVec(Len(e.Pv), One)
       trainOk == \A g \in Groups : SameBag(Drawn(e, e.look.train[g].color, e.look.train[g].marker), IF e.train THEN Pick(e.P, Members(wt, g)) ELSE <<>>)
       newOk == \A g \in Groups : SameBag(Drawn(e, e.look.new[g].color, e.look.new[g].marker), IF e.new THEN Pick(e.Pv, Members(wn, g)) ELSE <<>>)
   IN (IF trainOk THEN {} ELSE {"training-cases"}) \cup (IF newOk THEN {} ELSE {"new-cases"})
      \cup (IF NDrawn(e) = (IF e.train THEN Len(e.P) ELSE 0) + (IF e.new THEN Len(e.Pv) ELSE 0) THEN {} ELSE {"number-of-cases"})
      \cup (IF e.train /\ e.named /\ ~NamesOk(e, e.P, e.names) THEN {"names-of-training-cases"} ELSE {})
      \cup (IF e.new /\ e.namedv /\ ~NamesOk(e, e.Pv, e.namesv) THEN {"names-of-new-cases"} ELSE {})
      \cup (IF Len(e.notes) = NNames(e) THEN {} ELSE {"number-of-names"})
      \cup (IF e.title = e.asktitle THEN {} ELSE {"title"})
      \cup (IF ~e.asklabel \/ \A q \in 1..Len(e.scatter) : e.scatter[q].pts = <<>> \/ e.scatter[q].haslabel THEN {} ELSE {"label"})
      \* the diagonal of a parity plot
      \cup (IF e.kind # "yyp" \/ \E q \in 1..Len(e.lines) : e.lines[q].color = e.look.diag /\ \A r \in 1..Len(e.lines[q].pts) : REq(e.lines[q].pts[r][1], e.lines[q].pts[r][2])
            THEN {} ELSE {"diagonal"})
Bars(e) ==                     \* case weights: bar k (counted from 1, training cases first) is the weight of case k
   LET at(k) == {q \in 1..Len(e.bars) : REq(e.bars[q].x, Num(k)) /\ ~IsNaN(e.bars[q].h)}
       nt == IF e.train THEN Len(e.w) ELSE 0
       nv == IF e.new THEN Len(e.wv) ELSE 0
       shown(k) == IF k <= nt THEN e.w[k] ELSE e.wv[k - nt]
       col(k) == IF k <= nt THEN e.look.train.regular.color ELSE e.look.new.regular.color
       Pt == Force([k \in 1..nt |-> <<Num(k), e.w[k]>>])
       Pn == Force([k \in 1..nv |-> <<Num(nt + k), e.wv[k]>>])
   IN (IF \A k \in 1..(nt + nv) : Cardinality(at(k)) = 1 /\ \A q \in at(k) : CloseS(e.bars[q].h, shown(k), Tol9, One) /\ e.bars[q].color = col(k) THEN {} ELSE {"bars"})
      \cup (IF Cardinality({q \in 1..Len(e.bars) : ~IsNaN(e.bars[q].h)}) = nt + nv THEN {} ELSE {"number-of-bars"})
      \cup (IF e.train /\ e.named /\ ~NamesOk(e, Pt, e.names) THEN {"names-of-training-cases"} ELSE {})
      \cup (IF e.new /\ e.namedv /\ ~NamesOk(e, Pn, e.namesv) THEN {"names-of-new-cases"} ELSE {})
      \cup (IF Len(e.notes) = NNames(e) THEN {} ELSE {"number-of-names"})
      \cup (IF e.title = e.asktitle THEN {} ELSE {"title"})
Coef(e) ==                     \* e.bars in order of position; e.ticks: label of the bar
   LET b == e.b
       lab == Force([q \in 1..Len(e.bars) |-> LET K == {k \in 1..Len(b) : e.varnames[k] = e.ticks[q]} IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE])
   IN (IF Len(e.ticks) # Len(e.bars) THEN {"labels"}
       ELSE IF REq(e.trunc, Zero)
            THEN (IF Len(e.bars) = Len(b) /\ \A q \in 1..Len(b) : CloseR(e.bars[q].h, b[q], Tol9) THEN {} ELSE {"bars"})
                 \cup (IF ~e.hasnames \/ (Len(e.bars) = Len(b) /\ \A q \in 1..Len(b) : e.ticks[q] = e.varnames[q]) THEN {} ELSE {"labels"})
            ELSE LET v == KeptValues(b, e.trunc)
                 IN IF Len(e.bars) # Len(v) \/ \E q \in 1..Len(v) : ~REq(e.bars[q].h, v[q]) THEN {"bars"}
                    ELSE IF GoodLabels(b, e.trunc, lab) THEN {} ELSE {"labels"})
      \cup (IF e.title = e.asktitle THEN {} ELSE {"title"})
Fails(e) ==
   CASE e.ev = "scatter" -> IF e.out # "ok" THEN {"raised"} ELSE Scatter(e)
     [] e.ev = "weights" -> IF e.out # "ok" THEN {"raised"} ELSE Bars(e)
     [] e.ev = "coef" -> IF e.out # "ok" THEN {"raised"} ELSE Coef(e)
     [] e.ev = "contour" -> IF e.out # "ok" THEN {"raised"}
                            ELSE IF Len(e.x) = Len(e.grid) /\ \A k \in 1..Len(e.grid) :
                                       \E q \in 1..Len(e.x) : REq(e.x[q], e.grid[k][1]) /\ REq(e.y[q], e.grid[k][2]) /\ CloseR(e.z[q], e.grid[k][3], Tol9)
                                 THEN {} ELSE {"surface"}
     [] e.ev = "rejected" -> IF e.out = "ok" THEN {"invalid-request-accepted"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"model-or-data-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
