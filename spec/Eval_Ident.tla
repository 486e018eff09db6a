----------------------------- MODULE Eval_Ident -----------------------------
EXTENDS Fan, IdentEval
Emit == k > 0 => Report(IdentExpected(Inputs[k]))
Laws == k > 0 => IdentLaws(Inputs[k])
=============================================================================
