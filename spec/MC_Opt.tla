------------------------------- MODULE MC_Opt -------------------------------
(* Design model of an estimator that optimises in one or two stages, through a
   history of parameter changes and (re-)fits.  Data sets and start values are
   abstract tokens; every call of the solver records what problem it was given.
   Gen_C16 prints the histories of this model for replay in the real code.        *)
EXTENDS Integers, Sequences, TLC, FiniteSets, Json
CONSTANTS DataSets, MaxOps
VARIABLES par,      \* parameters as the user set them
          pc,       \* "idle" or the stage being solved
          cur,      \* data of the fit under way
          solves,   \* problems handed to the solver by the last fit
          attr,     \* what the last fit stored
          hist

Meths == {"dcov-sdr", "mdd-sdr", "user"}
vars == <<par, pc, cur, solves, attr, hist>>
Init == /\ par = [meth |-> "dcov-sdr", h |-> "1", scale |-> "yes", start |-> "none", cons |-> "none", opts |-> "user"]
        /\ pc = "idle" /\ cur = "none" /\ solves = <<>> /\ attr = <<>> /\ hist = <<>>
Changes == {<<"meth", m>> : m \in Meths} \cup {<<"h", "1">>, <<"h", "2">>, <<"scale", "yes">>, <<"scale", "no">>, <<"start", "none">>, <<"start", "given">>,
            <<"cons", "none">>, <<"cons", "given">>}
Set == /\ pc = "idle" /\ Len(hist) < MaxOps - 1
       /\ \E c \in Changes :
            /\ par[c[1]] # c[2]
            /\ par' = [par EXCEPT ![c[1]] = c[2]]
            /\ hist' = Append(hist, <<"set", c[1], c[2]>>)
       /\ UNCHANGED <<pc, cur, solves, attr>>
Fit(d) == /\ pc = "idle" /\ Len(hist) < MaxOps
          /\ cur' = d /\ solves' = <<>> /\ pc' = "stage1"
          /\ hist' = Append(hist, <<"fit", d, "">>)
          /\ UNCHANGED <<par, attr>>
Problem(stage) == [data |-> cur, h |-> par.h, obj |-> IF stage = 1 THEN "dcov-sdr" ELSE par.meth,
                   start |-> IF stage = 2 THEN <<"result of stage 1", cur>> ELSE IF par.start = "given" THEN <<"given">> ELSE <<"slices", cur>>,
                   cons |-> IF par.cons = "given" THEN <<"given">> ELSE <<"orthonormal", cur, par.scale>>]
Solve1 == /\ pc = "stage1"
          /\ solves' = Append(solves, Problem(1))
          /\ pc' = IF par.meth = "dcov-sdr" THEN "done" ELSE "stage2"
          /\ UNCHANGED <<par, cur, attr, hist>>
Solve2 == /\ pc = "stage2" /\ solves' = Append(solves, Problem(2)) /\ pc' = "done" /\ UNCHANGED <<par, cur, attr, hist>>
Store == /\ pc = "done" /\ attr' = <<cur, solves[Len(solves)]>> /\ pc' = "idle" /\ UNCHANGED <<par, cur, solves, hist>>
Next == Set \/ (\E d \in DataSets : Fit(d)) \/ Solve1 \/ Solve2 \/ Store

\* every problem solved is about the data and the parameters of the fit under way
OwnData == \A k \in 1..Len(solves) : pc # "idle" => solves[k].data = cur /\ solves[k].h = par.h
\* nothing of an earlier fit or parameter setting survives in the attributes
Fresh == pc = "idle" /\ attr # <<>> /\ hist[Len(hist)][1] = "fit" =>
            /\ attr[1] = hist[Len(hist)][2]
            /\ attr[2].obj = par.meth /\ attr[2].h = par.h
            /\ (par.meth = "dcov-sdr" => attr[2].start = IF par.start = "given" THEN <<"given">> ELSE <<"slices", attr[1]>>)
\* fitting never changes parameters
ParamsKept == [][pc # "idle" => par' = par]_vars
Stages == pc = "idle" => (solves = <<>> \/ Len(solves) = (IF solves[Len(solves)].obj = "dcov-sdr" THEN 1 ELSE 2))
=============================================================================
