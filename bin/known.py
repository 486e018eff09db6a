"""Known findings: genuine defects of the repository that are recorded rather than repaired.

Each entry names the specific input, call site or history that fails; `match` recognises exactly that, so any other
violation of the same property is still reported.  The human-readable list is known-findings.txt."""

FINDINGS = []
