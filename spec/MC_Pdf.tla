------------------------------- MODULE MC_Pdf -------------------------------
(***************************************************************************)
(* All short drawing programs over a vocabulary of operators: the text      *)
(* machine is stepped operator by operator, and each program is handed to   *)
(* the real renderer.                                                       *)
(***************************************************************************)
EXTENDS Pdf, Json
CONSTANTS Vocab, MaxLen, Closing
VARIABLES ops, s
Vars == <<ops, s>>
Font(n, base, enc, diff, tu, w) == [n |-> n, base |-> base, kind |-> "simple", enc |-> enc, diff |-> diff, tu |-> tu, first |-> 32, w |-> w, dw |-> 500]
Widths(sp) == <<sp>> \o [q \in 1..94 |-> IF q % 3 = 0 THEN 250 ELSE 500]
Page(vis, os) == [vis |-> vis, ops |-> os]
Roman == Font("f0", "Times-Roman", "win", <<>>, <<>>, Widths(250))
BoldF == Font("f1", "Times-Bold", "win", <<<<67, "ohungarumlaut">>>>, <<<<66, "fi">>>>, Widths(500))
Vis == <<<<"R", "f0">>, <<"S", "f1">>>>
FormX == [n |-> "X0", own |-> TRUE, vis |-> <<<<"R", "f1">>>>, ops |-> <<<<"Tf", "R", 8>>, <<"Tj", <<66>>>>, <<"Tc", 8>>>>]
Doc(os) == [crop |-> <<0, 0, 8000, 8000>>, fonts |-> <<Roman, BoldF>>, gs |-> <<[n |-> "g0", f |-> "f1", s |-> 16]>>, forms |-> <<FormX>>,
            pages |-> <<Page(Vis, os)>>]
Opening == <<<<"BT">>, <<"Tf", "R", 8>>, <<"TL", 96>>, <<"Td", 800, 4000>>>>
Empty == Doc(<<>>)
VocabState == <<<<"q">>, <<"Q">>, <<"Tf", "S", 16>>, <<"gs", "g0">>, <<"Tj", <<65, 66>>>>, <<"T*">>, <<"Do", "X0">>, <<"Tz", 50>>, <<"Ts", 24>>, <<"TL", 200>>, <<"BT">>, <<"Tc", 16>>>>
VocabMark == <<<<"q">>, <<"Q">>, <<"Tf", "S", 16>>, <<"Tj", <<65, 66>>>>, <<"T*">>, <<"ACT", "őz">>, <<"BMC", "P">>, <<"BDC", "P">>, <<"EMC">>, <<"Do", "X0">>,
               <<"TJ", <<<<"s", <<65>>>>, <<"n", 0 - 500>>, <<"s", <<67>>>>>>>>>>
VocabMove == <<<<"Td", 80, 0>>, <<"TD", 8, 0 - 130>>, <<"Tm", 2, 0, 0, 1, 1600, 3000>>, <<"T*">>, <<"Tw", 40>>, <<"Tj", <<65, 32>>>>, <<"'", <<66>>>>, <<"\"", 16, 8, <<32, 65>>>>,
               <<"ET">>, <<"TJ", <<<<"n", 250>>, <<"s", <<67>>>>>>>>, <<"Tz", 200>>, <<"Ts", 0 - 24>>>>
CloseDraw == <<<<"Tj", <<67, 65>>>>>>
CloseMark == <<<<"Tj", <<67>>>>, <<"EMC">>, <<"Td", 400, 0>>, <<"Tj", <<68>>>>>>
Init == ops = Opening /\ s = Ops(Empty, Vis, P0, Opening, 1)
Steps == Len(ops) - Len(Opening)
Next == /\ Steps < MaxLen /\ ~s.err
        /\ \E v \in 1..Len(Vocab) : ops' = Append(ops, Vocab[v]) /\ s' = TLCEval(Op1(Empty, Vis, s, Vocab[v]))
(* what has been drawn stays drawn *)
OnlyMore == [][s'.err \/ SubSeq(s'.chars, 1, Len(s.chars)) = s.chars]_Vars
(* saving and restoring around anything that draws nothing is as if nothing had happened *)
SaveRestore == \A v \in 1..Len(Vocab) :
    LET o == Vocab[v] IN
    (~s.err /\ o[1] \in {"Tf", "Tc", "Tw", "Tz", "TL", "Ts", "Td", "TD", "Tm", "T*", "gs", "BT"})
        => LET r == Ops(Empty, Vis, s, <<<<"q">>, o, <<"Q">>>>, 1) IN r.g = s.g /\ r.stk = s.stk /\ (s.g.font # "" => r.col = s.col) /\ r.chars = s.chars
(* the collected boldness and space width are those of the current font *)
InStep == s.err \/ s.g.font = "" \/ s.col = ColOf(FontNamed(Empty, s.g.font))
LawsHold == Steps < MaxLen \/ PdfLaws(Doc(ops \o Closing))
Emit == Steps < MaxLen \/ LET d == Doc(ops \o Closing) IN PrintT("@@" \o ToJson([i |-> d, e |-> PdfExpected(d)]))
=============================================================================
