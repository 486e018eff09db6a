---------------------------- MODULE Eval_Mk ------------------------------
EXTENDS Fan, Mk
Emit == k > 0 => Report(MkExpected(Inputs[k]))
Laws == k > 0 => MkLaws(Inputs[k])
=============================================================================
