------------------------------- MODULE Domain -------------------------------
(* What may be asked of the estimators.  A request is a record q of parameters and the
   shape d of the data; Ok(cls, q, d) is the documented domain.  The life of one estimator
   object is: a request inside the domain is accepted and becomes the model, any other
   request is refused and leaves the model alone; uses are answered from the model.       *)
EXTENDS Rat

\* ---- parameters
UnitNum(x)      == RLe(Num(0), x) /\ RLt(x, Num(1))
Centres         == {"mean", "median"}
Locations       == {"mean", "median", "l1median", "kstepLTS", "None"}
Scales          == {"std", "mad", "scaleTau2", "None"}
WeightFunctions == {"Hampel", "Huber", "Fair"}
SdrMethods      == {"sir", "save", "dr", "phd", "iht", "dcov-sdr", "mdd-sdr", "bcov-sdr"}
Slicing         == {"sir", "save", "dr"}      \* the others do not slice the response
OneBlock        == {"mom", "var", "std", "skew", "kurt"}
TwoBlock        == {"com", "cov", "cos", "cok", "corr", "continuum", "M3", "mdd"}
Regressions     == {"OLS", "robust", "quantile"}
RadialFunctions == {"ss", "ball", "shell", "quad", "winsor", "linear_redescending"}
\* cut-offs are probabilities, increasing for the three-part function
CutoffsOk(q) ==
   /\ RLt(Num(0), q.p1) /\ RLe(q.p1, Num(1))
   /\ (q.fun = "Hampel" => RLt(q.p1, q.p2) /\ RLt(q.p2, q.p3) /\ RLe(q.p3, Num(1)))
Least(a, b) == IF a < b THEN a ELSE b

\* ---- data: n cases, p variables (z of them constant), a response of ny cases and my columns
RowsOk(d)  == d.ny = d.n /\ d.my = 1
NamesOk(q, d) == q.names = "frame" => d.frame     \* column names can be taken from a data frame only

Ok(cls, q, d) ==
   CASE cls = "sprm"   -> /\ q.hint /\ 1 <= q.h /\ q.h <= Least(d.n, d.p - d.z)
                          /\ UnitNum(q.eta) /\ q.fun \in WeightFunctions /\ CutoffsOk(q)
                          /\ q.centre \in Locations /\ q.scale \in Scales /\ RowsOk(d) /\ NamesOk(q, d)
     [] cls = "snipls" -> q.hint /\ 1 <= q.h /\ UnitNum(q.eta) /\ q.centre \in Locations /\ q.scale \in Scales /\ RowsOk(d) /\ NamesOk(q, d)
     [] cls = "rm"     -> q.fun \in WeightFunctions /\ CutoffsOk(q) /\ q.centre \in Locations /\ q.scale \in Scales /\ RowsOk(d)
     [] cls = "ppdire" -> q.hint /\ 1 <= q.h /\ q.h <= Least(d.n, d.p) /\ q.centre \in Centres /\ UnitNum(q.trimming) /\ q.regopt \in Regressions /\ RowsOk(d)
     [] cls = "sudire" -> q.hint /\ 1 <= q.h /\ q.h <= Least(d.n, d.p) /\ q.centre \in Centres /\ q.meth \in SdrMethods /\ (q.meth \in Slicing => q.slices >= 1) /\ RowsOk(d)
     [] cls = "dicomo" -> /\ q.mode \in OneBlock \cup TwoBlock /\ q.est \in {"arithmetic", "distance"} /\ q.centre \in Centres
                          /\ (q.mode = "mdd" => q.est = "distance") /\ UnitNum(q.trimming) /\ d.n >= 1
                          /\ (q.mode \in TwoBlock => d.ny = d.n)
     [] cls = "capi"   -> q.degree \in 2..4 /\ d.ny = d.n /\ d.n >= 1
     [] cls = "scaler" -> q.centre \in Locations /\ q.scale \in Scales /\ UnitNum(q.trimming)
     [] cls = "wrapper" -> TRUE
     [] cls = "gss"    -> q.centre \in Locations /\ q.fun \in RadialFunctions
     [] OTHER -> FALSE

\* ---- the life of one object
NoModel == [on |-> FALSE, p |-> 0, fit |-> 0]
Accept(m, cls, q, d, k) == IF Ok(cls, q, d) THEN [on |-> TRUE, p |-> d.p, fit |-> k] ELSE m
\* an operation with new cases of p variables is answered by the model or refused
Answers(m, cls, op, arg) == m.on /\ (op \in {"predict", "transform", "inverse_transform", "weightnewx", "valscore"} => arg.p = m.p)
                                 /\ (op = "valscore" => arg.flag \in {"weighted", "normal"})
=============================================================================
