---------------------------- MODULE Eval_MkDraft ------------------------------
EXTENDS Fan, Mk
Emit == k > 0 => Report(IssueExpected(Inputs[k]))
Laws == k > 0 => IssueLaws(Inputs[k])
=============================================================================
