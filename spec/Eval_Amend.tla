---------------------------- MODULE Eval_Amend ------------------------------
EXTENDS Fan, Amend
Emit == k > 0 => Report(AmendExpected(Inputs[k]))
Laws == k > 0 => AmendLaws(Inputs[k])
=============================================================================
