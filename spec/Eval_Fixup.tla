----------------------------- MODULE Eval_Fixup -----------------------------
EXTENDS Fan, Fixup
Emit == k > 0 => Report(FixupExpected(Inputs[k]))
Laws == k > 0 => FixupLaws(Inputs[k])
=============================================================================
