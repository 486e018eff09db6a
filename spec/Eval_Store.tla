----------------------------- MODULE Eval_Store -----------------------------
EXTENDS Fan, Store
Emit == k > 0 => Report([at |-> Verdict(Inputs[k])])
Laws == TRUE
=============================================================================
