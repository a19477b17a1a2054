------------------------------ MODULE Gen_C16 -------------------------------
(* The histories of MC_Opt that end with a fit, and the solver's scripts: the
   sequences of questions the solver asks about the problem.                       *)
EXTENDS MC_Opt
Emit == IF Len(hist') = MaxOps /\ hist'[MaxOps][1] = "fit" /\ pc' = "stage1" THEN PrintT("CASE|" \o ToJson(hist')) ELSE TRUE
GenNext == Next /\ Emit
=============================================================================
