------------------------------- MODULE T_C04 --------------------------------
EXTENDS Gss
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

RowOk(z, x, xs) == \E w \in xs : CloseVS(z, VScale(w, x), Tol7, MaxAbsV(x))

Fails(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
       Xm == Force([r \in 1..n |-> VSub(e.X[r], e.c)])
       xi == Xi(e.fun, Norms(Xm), p)
       \* cases exactly at a cut-off can be decided either way by rounding of Xm
       big == MaxAbsM(e.X)
   IN
   CASE e.ev = "gss" ->
          IF e.out # "ok" THEN {"gss-raised"}
          ELSE IF ~IsVec(e.c, p) \/ ~IsMat(e.Z, n, p) THEN {"gss-shape"}
          ELSE {"row-not-scaled-by-radial-weight:" \o e.fun : r \in {r \in 1..n : ~RowOk(e.Z[r], Xm[r], xi[r])}}
     [] e.ev = "gss-center" ->
          IF ~IsVec(e.c, p) THEN {"gss-center-shape"}
          ELSE {"centre:" \o e.center : j \in {j \in 1..p : ~CloseS(e.c[j],
                  CASE e.center = "mean" -> NanMean(Col(e.X, j))
                    [] e.center = "median" -> NanMedian(Col(e.X, j))
                    [] e.center = "None" -> Zero
                    [] OTHER -> e.expect[j], Tol9, big)}}
     [] e.ev = "gss-cov" ->
          IF e.out # "ok" THEN {"covmat-raised"}
          ELSE IF ~IsMat(e.V, p, p) THEN {"covmat-shape"}
          ELSE LET Z == e.Z
               IN IF CloseMx(e.V, MatScale(RDiv(One, Num(n)), MatTMul(Z, Z)), Tol7) THEN {}
                  ELSE {"covmat-not-second-moment-of-signs"}
     [] e.ev = "gss-new" -> IF e.out # "ok" THEN {"gss-new-raised"}
                            ELSE IF ~IsMat(e.Z, n, p) THEN {"transform-ignores-new-data"} ELSE {}
     [] OTHER -> {"unknown-event"}

Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
