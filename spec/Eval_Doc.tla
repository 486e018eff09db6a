------------------------------ MODULE Eval_Doc ------------------------------
EXTENDS Fan, DocEval
Emit == k > 0 => Report(DocExpected(Inputs[k]))
Laws == k > 0 => DocLaws(Inputs[k])
=============================================================================
