-------------------------------- MODULE Plot --------------------------------
(* What a plot of a fitted model must show.  A request names the kind of plot, the
   training cases and/or the new cases; a plot is a set of marks, one per case (or per
   variable), each at the place the model puts it, in the group its weight says, with
   the name of its own case.                                                           *)
EXTENDS Lin

\* groups of cases by case weight
GroupOf(w) == IF REq(w, One) THEN "regular" ELSE IF REq(w, Zero) THEN "harsh" ELSE "moderate"
Groups == {"regular", "moderate", "harsh"}
Members(w, g) == {k \in 1..Len(w) : GroupOf(w[k]) = g}

\* marks of one block of cases: P = sequence of points <<x, y>>, w = case weights
Marks(P, w, g) == {<<k, P[k]>> : k \in Members(w, g)}

\* truncated bar charts: the left smallest and left largest of p values
CeilR(x) == -RFloor(RNeg(x))
NTrunc(p, t) == CeilR(RMul(Num(p), RDiv(t, Two)))
KeptPositions(p, t) == LET l == NTrunc(p, t) IN SeqOfSet({k \in 1..p : k <= l \/ k > p - l})
KeptValues(b, t) == LET srt == RSort(b)
                        pos == KeptPositions(Len(b), t)
                    IN Force([q \in 1..Len(pos) |-> srt[pos[q]]])
\* a labelling of the kept bars: label q is the position in b of the variable shown as bar q
GoodLabels(b, t, lab) ==
   LET v == KeptValues(b, t)
   IN /\ Len(lab) = Len(v)
      /\ \A q, r \in 1..Len(lab) : q # r => lab[q] # lab[r]
      /\ \A q \in 1..Len(lab) : lab[q] \in 1..Len(b) /\ REq(b[lab[q]], v[q])
=============================================================================
