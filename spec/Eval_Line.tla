----------------------------- MODULE Eval_Line ------------------------------
EXTENDS Fan, Line
Emit == k > 0 => Report(LineExpected(Inputs[k]))
Laws == k > 0 => LineLaws(Inputs[k])
=============================================================================
