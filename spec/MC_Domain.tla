----------------------------- MODULE MC_Domain ------------------------------
(* The fitting protocol: checks are made one after another, some only when the data have
   been prepared (constant variables are found after scaling), and the attributes of the
   model are written one after another once all have passed.  The design must refine the
   one-step Accept of Domain whatever is asked, in any order of requests and uses.         *)
EXTENDS Domain
CONSTANTS MaxReq
VARIABLES model, attr, pc, req, cnt, answered
vars == <<model, attr, pc, req, cnt, answered>>
\* numbers are kept in states as eighths (eta) and fortieths (cut-offs)
Qs == [h : 0..3, eta : {-1, 0, 4, 8}, fun : {"Hampel", "Huber", "Tukey"}, p1 : {0, 36, 40}, p3 : {38, 40}, names : {"none", "frame"}]
Real(q) == [h |-> q.h, hint |-> TRUE, eta |-> RDiv(Num(q.eta), Num(8)), fun |-> q.fun, p1 |-> RDiv(Num(q.p1), Num(40)), p2 |-> Num("19/20"),
            p3 |-> RDiv(Num(q.p3), Num(40)), centre |-> "median", scale |-> "mad", names |-> q.names]
Ds == [n : {3}, p : {1, 2}, z : {0, 1}, ny : {2, 3}, my : {1}, frame : {TRUE, FALSE}]
Small == {[q |-> q, d |-> d] : q \in Qs, d \in Ds}
Attrs == {"location", "scale", "coef", "scores"}
None  == [k \in Attrs |-> 0]
Init == model = NoModel /\ attr = None /\ pc = "idle" /\ req \in Small /\ cnt = 0 /\ answered = <<>>
\* a request arrives; the stages in which it can be turned down
Stage1(q, d) == q.hint /\ 1 <= q.h /\ q.h <= Least(d.n, d.p) /\ UnitNum(q.eta)
Stage2(q, d) == q.fun \in WeightFunctions /\ CutoffsOk(q) /\ NamesOk(q, d)
Stage3(q, d) == RowsOk(d)
Stage4(q, d) == q.h <= d.p - d.z         \* after preparation
Ask == pc = "idle" /\ cnt < MaxReq /\ pc' = "s1" /\ cnt' = cnt + 1
       /\ req' \in (IF cnt = 0 THEN {req} ELSE {r \in Small : r.q.fun = "Huber" /\ r.q.p1 = 36 /\ r.q.p3 = 40})
       /\ UNCHANGED <<model, attr, answered>>
Check(a, P(_, _), b) == pc = a /\ pc' = (IF P(Real(req.q), req.d) THEN b ELSE "idle") /\ UNCHANGED <<model, attr, req, cnt, answered>>
Commit == pc = "write" /\ pc' = "idle" /\ attr' = [k \in Attrs |-> cnt] /\ model' = Accept(model, "sprm", Real(req.q), req.d, cnt) /\ UNCHANGED <<req, cnt, answered>>
Use(p) == pc = "idle" /\ answered' = (IF Answers(model, "sprm", "predict", [p |-> p]) THEN <<attr["location"], attr["coef"], p>> ELSE <<>>)
          /\ UNCHANGED <<model, attr, pc, req, cnt>>
Next == Ask \/ Check("s1", Stage1, "s2") \/ Check("s2", Stage2, "s3") \/ Check("s3", Stage3, "s4") \/ Check("s4", Stage4, "write") \/ Commit \/ \E p \in 1..3 : Use(p)
\* the stages together are the domain
Staged == pc = "write" => Ok("sprm", Real(req.q), req.d)
Complete == (pc = "idle" /\ cnt > 0 /\ Ok("sprm", Real(req.q), req.d)) => model.on /\ model.fit = cnt
\* what was refused left no trace
Atomic == pc # "write" => (IF model.on THEN attr = [k \in Attrs |-> model.fit] ELSE attr = None)
\* answers come from an accepted request for that number of variables
Sound == answered # <<>> => model.on \/ attr = None
OneFit == answered # <<>> => answered[1] = answered[2] /\ answered[1] > 0
=============================================================================
