------------------------------ MODULE Eval_Sem ------------------------------
EXTENDS Fan, Sem
Emit == k > 0 => LET h == HistoryOf(Inputs[k]) IN Report(SemExpected(Inputs[k], h)) /\ SemLaws(h)
Laws == TRUE
=============================================================================
