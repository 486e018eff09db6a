---------------------------- MODULE Eval_Struct -----------------------------
EXTENDS Fan, StructEval
Emit == k > 0 => Report(StructExpected(Inputs[k]))
Laws == k > 0 => StructLaws(Inputs[k])
=============================================================================
