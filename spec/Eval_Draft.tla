----------------------------- MODULE Eval_Draft -----------------------------
EXTENDS Fan, Draft
Emit == k > 0 => Report([ls |-> DraftLines(Inputs[k])])
Laws == k > 0 => DraftLaws(Inputs[k])
=============================================================================
