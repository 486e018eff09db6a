---------------------------- MODULE MC_Notation -----------------------------
(***************************************************************************)
(* A user types an identifier one character at a time.  At every prefix     *)
(* each of the identifier types either recognises what was typed, with one  *)
(* definite meaning, or rejects it.                                         *)
(***************************************************************************)
EXTENDS IdentEval, Json
CONSTANTS Alphabet, MaxLen
VARIABLE typed
AlphaDec == {"1", "0", "6", "/", "a", "C", "s", ":", "."}
AlphaRom == {"I", "V", "X", "L", "C", "M", "/", "a"}
Init == typed = ""
Next == Len(typed) < MaxLen /\ \E c \in Alphabet : typed' = typed \o c
Types == <<"letter", "num", "art", "para", "pre", "act">>
In == [op |-> "all", s |-> typed]
Expected == [r |-> "ok", v |-> [one |-> [q \in 1..6 |-> View(Types[q], Parse(Types[q], typed))],
                                compact |-> [q \in 1..6 |-> View(Types[q], ParseCompact(Types[q], typed))],
                                roman |-> IdentExpected([op |-> "roman", s |-> typed]),
                                issue |-> ParseIssue(typed)]]
(* what is accepted is written back in a form that means the same *)
RoundTrip == \A q \in 1..6 : IdentLaws([op |-> "one", t |-> Types[q], s |-> typed])
Emit == PrintT("@@" \o ToJson([i |-> In, e |-> Expected]))
=============================================================================
