------------------------------ MODULE MC_Fixup ------------------------------
(***************************************************************************)
(* All corrections between short texts over a small alphabet, and all       *)
(* sequences of corrections over a page of alike lines.                     *)
(***************************************************************************)
EXTENDS Fixup, Json
CONSTANTS Texts, Page, MaxFixes
VARIABLE fs
Vars == <<fs>>
TextsOne == {"", "a", "b", "aa", "ab", "ba", "bb", "aaa", "aab", "aba", "abb", "baa", "bab", "bba", "bbb", "abab", "cab", "abc"}
TextsFew == {"", "a", "b"}
Dx(q) == IF q = 1 THEN 100 ELSE 20 + 4 * q
AsLine(t, b) == [p |-> [q \in 1..Len(t) |-> <<Dx(q), Chr(t, q), IF b THEN 1 ELSE 0>>], j |-> TRUE]
PageAlike == <<"a", "a", "b", "a", "b">>
PageNone == <<>>
Lines == IF Page = <<>> THEN <<AsLine("x", FALSE), AsLine(fs[1].old, fs[1].old = "ab"), AsLine("y", TRUE)>> ELSE [q \in 1..Len(Page) |-> AsLine(Page[q], FALSE)]
Afters == IF Page = <<>> THEN {<<>>} ELSE {<<>>} \cup {<<t>> : t \in TextsFew} \cup {<<t, u>> : t \in TextsFew, u \in TextsFew}
Init == fs = <<>>
Next == /\ Len(fs) < MaxFixes
        /\ \E a \in Afters, o \in Texts, n \in Texts, b \in BOOLEAN : fs' = Append(fs, Fx(a, o, n, b))
In == [ls |-> Lines, fs |-> fs]
LawsHold == fs = <<>> \/ FixupLaws(In)
Emit == fs = <<>> \/ PrintT("@@" \o ToJson([i |-> In, e |-> FixupExpected(In)]))
(* after the first that does not apply nothing more can be said *)
Alive == fs = <<>> \/ IsOk(FixupExpected(In))
=============================================================================
