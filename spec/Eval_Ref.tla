------------------------------ MODULE Eval_Ref ------------------------------
EXTENDS Fan, RefEval
Emit == k > 0 => Report(RefExpected(Inputs[k]))
Laws == k > 0 => RefLaws(Inputs[k])
=============================================================================
