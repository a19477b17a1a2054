------------------------------- MODULE T_C16 --------------------------------
(* Trace validation of dimension reduction by optimisation: every problem handed
   to the solver, and what is made of its answer.                                  *)
EXTENDS Opt
CONSTANT TraceFile
T == ReadTrace(TraceFile)
VARIABLES s, i

\* the user's functions of the driver
QuadF(b) == RSum(Force([q \in 1..Len(b) |-> RMul(Num(q), RSq(b[q]))]))
G1(b) == <<RSub(Two, Norm2(b))>>
G2(b) == <<RAdd(b[1], b[Len(b)]), RMul(b[1], b[Len(b)])>>

Fit(e) ==
   LET X == e.X
       n == Rows(X)
       p == Cols(X)
       N2 == e.N2
       Xs == Prepared(e, N2)
       G == IF e.scale_data THEN Ident(p) ELSE Cov1(Xs)
       o == [center |-> e.center, trim |-> e.trim, bias |-> e.bias, dmetric |-> e.dmetric]
       nst == IF e.meth = "dcov-sdr" THEN 1 ELSE 2
       FCon(b) == IF e.cons = "given" THEN G1(b) \o G2(b) ELSE ConsG(G, b, e.h)
       FObj1(b) == Objective("dcov", o, Xs, e.y, b, e.h)
       FObj2(b) == IF e.meth = "user" THEN QuadF(b) ELSE Objective("mdd", o, Xs, e.y, b, e.h)
       \* on the scale of the data
       Back(b) == IF e.scale_data THEN MatMul(N2, Shape(b, e.h)) ELSE Shape(b, e.h)
       Bounds(sv) == /\ sv.n = p * e.h
                     /\ sv.lb = "none" /\ sv.ub = "none"
                     /\ IF e.cons = "given"
                        THEN IsVec(sv.cl, 3) /\ IsVec(sv.cu, 3) /\ CloseV(sv.cl, ConstVec(3, Zero), Tol12)
                             /\ REq(sv.cu[1], Inf19) /\ REq(sv.cu[2], Zero) /\ REq(sv.cu[3], Zero)
                        ELSE sv.m = e.h * e.h /\ CloseV(sv.cl, ConstVec(e.h * e.h, Zero), Tol12) /\ CloseV(sv.cu, ConstVec(e.h * e.h, Zero), Tol12)
       \* starting value
       mean == ColMeans(X)
       mu == IF e.center_data THEN mean ELSE ConstVec(p, Zero)
       GX == IF e.scale_data THEN Cov1(X) ELSE Ident(p)
       SSk(h) == Slices(e.y, h, e.discrete)
       Ker(m) == Kernel(m, X, e.y, SSk(IF m = "save" THEN 3 ELSE 6), mu, GX)
       Cands == [m \in {"save", "sir", "dr"} |-> Ker(m)]
       B0 == Shape(e.solves[1].x0, e.h)
       DcB(B) == DcovSqSpan(Xs, e.y, B)
       start == IF e.hasstart THEN IF CloseV(e.solves[1].x0, e.start, Tol12) THEN {} ELSE {"start-given-not-used"}
                ELSE LET mm == {m \in {"save", "sir", "dr"} : Leading(B0, Cands[m], GX, Tol6) = {}}
                         okc == \A m \in {"save", "sir", "dr"} : Leading(e.cand[m], Cands[m], GX, Tol6) = {}
                         best == RMaxSeq(<<DcB(e.cand["save"]), DcB(e.cand["sir"]), DcB(e.cand["dr"])>>)
                     IN IF ~okc THEN {"driver-candidates"}
                        ELSE IF mm = {} THEN {"start-not-a-slicing-basis"}
                        ELSE IF RLe(best, RAdd(DcB(B0), RMul(Tol6, RMax(One, best)))) THEN {} ELSE {"start-not-the-best-basis"}
       last == e.solves[nst].ret
       U == e.uargs
   IN IF e.scale_data /\ ~IsStandardiser(N2, e) THEN {"driver-standardiser"}
      ELSE IF Len(e.solves) # nst THEN {"number-of-optimisations"}
      ELSE IF \E q \in 1..nst : ~IsVec(e.solves[q].x0, p * e.h) THEN {"start-shape"}
      ELSE IF ~(IsMat(e.P, p, e.h) /\ IsMat(e.T, n, e.h) /\ IsMat(e.proj, p, p)) THEN {"shape"}
      ELSE start
      \cup (IF nst = 2 /\ ~CloseVx(e.solves[2].x0, Unroll(Back(e.solves[1].ret)), Tol7) THEN {"second-start"} ELSE {})
      \cup (IF \A q \in 1..nst : Bounds(e.solves[q]) THEN {} ELSE {"constraint-bounds"})
      \cup (IF \A q \in 1..nst : OptionsOk(e.solves[q].options, e.opts, Zero) THEN {} ELSE {"solver-options"})
      \cup AskedAll(e.solves[1], FObj1, FCon, "-1")
      \cup (IF nst = 2 THEN AskedAll(e.solves[2], FObj2, FCon, "-2") ELSE {})
      \cup (IF CloseMx(e.P, Back(last), Tol7) THEN {} ELSE {"basis-not-the-optimum-on-the-data-scale"})
      \cup (IF CloseMx(e.T, MatMul(X, e.P), Tol9) THEN {} ELSE {"scores"})
      \cup (IF CloseM(e.proj, ProjOn(e.P), Tol5) THEN {} ELSE {"projection-matrix"})
      \cup (IF "uargs" \notin DOMAIN e THEN {}
            ELSE IF U.n # 9 THEN {"user-function-arguments"}
            ELSE IF U.h = e.h /\ REq(U.trim, e.trim) /\ U.center = e.center /\ U.dmetric = e.dmetric /\ U.bias = e.bias /\ ~U.isd
                    /\ IsMat(U.X, n, p) /\ CloseMx(U.X, Xs, Tol7) /\ IsVec(U.y, n) /\ CloseV(U.y, e.y, Tol12) THEN {} ELSE {"user-function-arguments"})

CountQ(sv, kind) == Cardinality({q \in 1..Len(sv.asked) : sv.asked[q].q = kind})
Direct(e) ==
   LET sv == e.solves[1]
       nn == Len(e.x0)
       FObj(b) == RAdd(RMul(e.a, QuadF(b)), e.d)
       FCon(b) == CASE e.cons = "dict" -> G2(b) [] e.cons = "tuple" -> G1(b) \o G2(b) [] e.cons = "list" -> G2(b) \o G1(b) [] OTHER -> <<>>
       cu == CASE e.cons = "dict" -> <<Zero, Zero>> [] e.cons = "tuple" -> <<Inf19, Zero, Zero>> [] e.cons = "list" -> <<Zero, Zero, Inf19>> [] OTHER -> <<>>
       bnd == Force([q \in 1..nn |-> Num(q)])
   IN IF Len(e.solves) # 1 THEN {"number-of-optimisations"}
      ELSE (IF IsVec(sv.x0, nn) /\ CloseV(sv.x0, e.x0, Tol12) /\ sv.n = nn THEN {} ELSE {"start"})
      \cup (IF sv.m = Len(cu) /\ CloseV(sv.cl, ConstVec(Len(cu), Zero), Tol12) /\ Len(sv.cu) = Len(cu) /\ \A q \in 1..Len(cu) : REq(sv.cu[q], cu[q]) THEN {} ELSE {"constraint-bounds"})
      \cup (IF ~e.bounds THEN IF sv.lb = "none" /\ sv.ub = "none" THEN {} ELSE {"bounds"}
            ELSE IF IsVec(sv.lb, nn) /\ IsVec(sv.ub, nn) /\ \A q \in 1..nn : REq(sv.lb[q], Num(-q)) /\ REq(sv.ub[q], Num(q + 1)) THEN {} ELSE {"bounds"})
      \cup (IF OptionsOk(sv.options, e.opts, e.tol) THEN {} ELSE {"solver-options"})
      \cup AskedAll(sv, FObj, FCon, "")
      \cup (IF e.res.x = sv.ret /\ (e.scalar <=> e.res.ndim = 0) THEN {} ELSE {"result-x"})
      \cup (IF e.res.status = e.status /\ (e.res.success <=> e.status = 0) /\ REq(e.res.fun, Num("-1.25")) THEN {} ELSE {"result-status"})
      \cup (IF e.jac = "true" \/ (e.res.nfev = CountQ(sv, "obj") /\ e.res.njev = CountQ(sv, "grad")) THEN {} ELSE {"evaluation-counts"})
      \cup (IF e.res.nit = e.iters THEN {} ELSE {"iteration-count"})

Fails(e) ==
   CASE e.ev = "fit" -> IF e.out # "ok" THEN {"fit-raised"} ELSE Fit(e)
     [] e.ev = "direct" -> IF e.out # "ok" THEN {"minimise-raised"} ELSE Direct(e)
     [] e.ev = "transform" -> IF e.out # "ok" THEN {"transform-raised"}
                              ELSE IF ~IsMat(e.Z, Rows(e.Xn), Cols(e.P)) THEN {"transform-shape"}
                              ELSE IF CloseMx(e.Z, MatMul(e.Xn, e.P), Tol9) THEN {} ELSE {"transform"}
     [] e.ev = "predict" -> IF e.out # "ok" THEN {"predict-raised"}
                            ELSE IF ~IsVec(e.yp, Rows(e.Xn)) THEN {"predict-shape"}
                            ELSE IF CloseVS(e.yp, OlsPredict(OlsFit(MatMul(e.X, e.P), e.y), MatMul(e.Xn, e.P)), Tol5, MaxAbsV(e.y)) THEN {} ELSE {"predict"}
     [] e.ev = "unchanged" -> IF e.same THEN {} ELSE {"arguments-changed"}
     [] e.ev = "params" -> IF e.same THEN {} ELSE {"parameters-changed"}
     [] OTHER -> {"unknown-event"}
Init == s \in 1..Len(T) /\ i = 0
Next == /\ i < Len(T[s].events)
        /\ LET e == T[s].events[i + 1]
               bad == Fails(e)
           IN IF bad = {} THEN TRUE
              ELSE PrintT("FAIL|" \o T[s].id \o "|" \o ToString(i + 1) \o "|" \o e.ev \o "|" \o ToString(bad))
        /\ i' = i + 1 /\ s' = s
=============================================================================
