------------------------------- MODULE T_C03 --------------------------------
EXTENDS Location
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

Spread(X) == RAdd(MaxAbsM(MapM(LAMBDA x : IF IsNaN(x) THEN Zero ELSE x, X)), Tol6)

Fails(e) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
   IN
   CASE e.ev = "l1median" ->
          IF e.out # "ok" THEN {"l1median-raised"}
          ELSE IF ~IsVec(e.m, p) THEN {"l1median-shape"}
          ELSE IF p = 1 THEN (IF Close(e.m[1], NanMedian(Col(e.X, 1)), Tol9) THEN {} ELSE {"l1median-univariate"})
          ELSE IF \E j \in 1..p : ~IsFin(e.m[j]) THEN {"l1median-not-finite"}
          ELSE IF \E z \in L1Rivals(e.X, e.m) :
                    RLt(RMul(RAdd(One, e.tol), L1Obj(e.X, z)), RSub(L1Obj(e.X, e.m), Tol6))
               THEN {"l1median-not-minimal"} ELSE {}
     [] e.ev = "kstart" ->      \* no concentration step: the L1 median
          IF e.out # "ok" THEN {"kstepLTS-raised"}
          ELSE IF ~IsVec(e.m, p) THEN {"kstepLTS-shape"}
          ELSE IF ~CloseVS(e.m, e.l1, Tol9, Spread(e.X)) THEN {"kstepLTS-start-not-l1median"} ELSE {}
     [] e.ev = "kstep" ->       \* e.prev -> e.m is one concentration step
          IF e.out # "ok" THEN {"kstepLTS-raised"}
          ELSE IF ~IsVec(e.m, p) THEN {"kstepLTS-shape"}
          ELSE IF LtsAmbiguous(e.X, e.prev) \/ LtsTies(e.X, e.prev) THEN {}
          ELSE IF ~CloseVS(e.m, LtsStep(e.X, e.prev), Tol9, Spread(e.X)) THEN {"kstepLTS-not-a-concentration-step"}
          ELSE {}
     [] e.ev = "kfinal" ->      \* default number of steps: a run of at most 5 steps
          IF e.out # "ok" THEN {"kstepLTS-raised"}
          ELSE IF ~CloseVS(e.m, e.prev, Tol9, Spread(e.X)) THEN {"kstepLTS-default-run"} ELSE {}
     [] e.ev = "equiv" ->       \* shifted / scaled / re-ordered data
          IF e.out # "ok" THEN {"location-raised"}
          ELSE IF ~CloseVS(e.m, e.expect, e.tol, Spread(e.X)) THEN {"not-equivariant"} ELSE {}
     [] e.ev = "breakdown" ->   \* cases 1..bad are arbitrary, the others are within R of their mean
          LET G == [k \in 1..(n - e.bad) |-> e.X[e.bad + k]]
              c == Force([j \in 1..p |-> NanMean(Col(G, j))])
              R == RSqrt(MaxAbsV(Dists2(G, c)))
              d == RSqrt(Dist2(e.m, c))
              f == RDiv(RMul(Num(2), Num(n - e.bad)), Num(n - 2 * e.bad))   \* bound for the minimiser
          IN IF e.out # "ok" THEN {"location-raised"}
             ELSE IF ~IsVec(e.m, p) \/ \E j \in 1..p : ~IsFin(e.m[j]) THEN {"location-shape"}
             ELSE IF RLe(d, RMul(R, RMul(f, Num(e.steps)))) THEN {} ELSE {"breaks-down"}
     [] OTHER -> {"unknown-event"}

Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
