---------------------------- MODULE Eval_Session ----------------------------
EXTENDS Fan, Session
Emit == k > 0 => Report(SessionExpected(Inputs[k]))
Laws == k > 0 => SessionLaws(Inputs[k])
=============================================================================
