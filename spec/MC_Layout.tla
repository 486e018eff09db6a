----------------------------- MODULE MC_Layout ------------------------------
(***************************************************************************)
(* All ways to put a few characters around each other: next to, slightly    *)
(* above, below, far below, with gaps around the widths that decide about   *)
(* spaces, lines, empty lines and justification, in any drawing order.      *)
(***************************************************************************)
EXTENDS Pdf, Json
CONSTANTS Xs, Ys, Texts, MaxLen
VARIABLE ops
Font == [n |-> "f0", base |-> "Times-Roman", kind |-> "simple", enc |-> "win", diff |-> <<>>, tu |-> <<>>, first |-> 32, w |-> [q \in 1..224 |-> IF q = 1 THEN 250 ELSE 500], dw |-> 500]
Doc == [crop |-> <<0, 0, 8000, 8000>>, fonts |-> <<Font>>, gs |-> <<>>, forms |-> <<>>, pages |-> <<[vis |-> <<<<"R", "f0">>>>, ops |-> ops]>>]
Opening == <<<<"BT">>, <<"Tf", "R", 8>>>>
Init == ops = Opening
Steps == (Len(ops) - Len(Opening)) \div 2
(* 4 points wide characters (32 eighths), space of 2 points (threshold 8 eighths) *)
Next == /\ Steps < MaxLen
        /\ \E x \in Xs, y \in Ys, t \in Texts : ops' = ops \o <<<<"Tm", 1, 0, 0, 1, 800 + x, 4000 - y>>, <<"Tj", <<t>>>>>>
Drawn(os) == RunPage([Doc EXCEPT !.pages[1].ops = os], Doc.pages[1]).chars
(* the order of drawing does not matter *)
Order == LET cs == RunPage(Doc, Doc.pages[1]).chars
         IN Overprinted(cs) \/ PageLines(cs) = PageLines([q \in 1..Len(cs) |-> cs[Len(cs) + 1 - q]])
LawsHold == PdfLaws(Doc)
Emit == Steps = 0 \/ PrintT("@@" \o ToJson([i |-> Doc, e |-> PdfExpected(Doc)]))
=============================================================================
