------------------------------ MODULE Eval_Runs -----------------------------
EXTENDS Fan, Runs
Emit == k > 0 => Report([at |-> RunsVerdict(Inputs[k])])
Laws == TRUE
=============================================================================
