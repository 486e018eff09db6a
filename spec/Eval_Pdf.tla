------------------------------ MODULE Eval_Pdf ------------------------------
EXTENDS Fan, Pdf
Emit == k > 0 => Report(PdfExpected(Inputs[k]))
Laws == k > 0 => PdfLaws(Inputs[k])
=============================================================================
