------------------------------- MODULE T_C02 --------------------------------
(* Trace validation of scaler histories.  The specification state is the pair of
   stored estimates (or "unfitted"); every later call must be explained by it.   *)
EXTENDS Scaler
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i, st

Sc(est, X, r, c) == RDiv(RMax(RAbs(X[r][c]), RAbs(est.c[c])), RAbs(Safe(est.s[c])))
CloseFwd(est, Z, X) ==
   LET E == Forward(est.c, est.s, X)
   IN \A r \in 1..Rows(X), c \in 1..Cols(X) :
        CloseS(Z[r][c], E[r][c], Tol9, IF IsFin(E[r][c]) THEN Sc(est, X, r, c) ELSE One)
CloseBwd(est, X, Z) ==
   LET E == Backward(est.c, est.s, Z)
   IN \A r \in 1..Rows(Z), c \in 1..Cols(Z) :
        CloseS(X[r][c], E[r][c], Tol9, IF IsFin(E[r][c]) THEN RAbs(est.c[c]) ELSE One)

Fails(e, est) ==
   LET n == Rows(e.X)
       p == Cols(e.X)
       fit == [c |-> e.c, s |-> e.s]
   IN
   CASE e.ev = "fit" -> IF e.out # "ok" THEN {"fit-raised"}
                        ELSE IF ~IsVec(e.c, p) \/ ~IsVec(e.s, p) THEN {"estimate-shape"} ELSE {}
     [] e.ev = "fit_transform" ->
            IF e.out # "ok" THEN {"fit-raised"}
            ELSE IF ~IsVec(e.c, p) \/ ~IsVec(e.s, p) \/ ~IsMat(e.Z, n, p) THEN {"shape"}
            ELSE IF ~CloseFwd(fit, e.Z, e.X) THEN {"fit_transform-not-affine"} ELSE {}
     [] e.ev = "scale" ->            \* transform or predict on any data
            IF ~est.fitted THEN (IF e.out = "ok" THEN {"transform-before-fit"} ELSE {})
            ELSE IF e.out # "ok" THEN {"transform-raised"}
            ELSE IF ~IsMat(e.Z, n, p) THEN {"transform-shape"}
            ELSE (IF ~CloseFwd(est, e.Z, e.X) THEN {"transform-not-stored-affine-map"} ELSE {})
                 \cup (IF e.c # est.c \/ e.s # est.s THEN {"estimates-changed-by-transform"} ELSE {})
     [] e.ev = "inverse" ->          \* e.X = scaled input, e.Z = returned data
            IF ~est.fitted THEN (IF e.out = "ok" THEN {"inverse-before-fit"} ELSE {})
            ELSE IF e.out # "ok" THEN {"inverse-raised"}
            ELSE IF ~IsMat(e.Z, n, p) THEN {"inverse-shape"}
            ELSE IF ~CloseBwd(est, e.Z, e.X) THEN {"inverse-not-stored-affine-map"} ELSE {}
     [] e.ev = "roundtrip" ->        \* e.X original, e.Z = inverse(transform(X))
            IF ~est.fitted \/ e.out # "ok" THEN {"roundtrip-raised"}
            ELSE IF ~IsMat(e.Z, n, p) THEN {"roundtrip-shape"}
            ELSE IF \E r \in 1..n, c \in 1..p :
                      ~CloseS(e.Z[r][c], e.X[r][c], Tol9, RMax(RAbs(est.c[c]), IF IsFin(e.X[r][c]) THEN RAbs(e.X[r][c]) ELSE One))
                 THEN {"roundtrip-differs"} ELSE {}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"input-mutated"}
     [] OTHER -> {"unknown-event"}

Step(e, est) ==
   IF e.ev \in {"fit", "fit_transform"} /\ e.out = "ok" /\ IsVec(e.c, Cols(e.X)) /\ IsVec(e.s, Cols(e.X))
   THEN [fitted |-> TRUE, c |-> e.c, s |-> e.s] ELSE est

Init == s \in 1..Len(T) /\ i = 0 /\ st = [fitted |-> FALSE, c |-> <<>>, s |-> <<>>]
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e, st)
           IN /\ IF bad = {} THEN TRUE
                 ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
              /\ st' = Step(e, st)
        /\ i' = i + 1 /\ s' = s
=============================================================================
