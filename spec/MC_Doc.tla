------------------------------- MODULE MC_Doc -------------------------------
(***************************************************************************)
(* An act grows: headings and articles are added at its end, paragraphs to  *)
(* its last article, points and subpoints to its last paragraph.            *)
(***************************************************************************)
EXTENDS DocEval, Json
CONSTANTS Heads, Paras, Points, MaxLen, Op
VARIABLES ch, n
Vars == <<ch, n>>
R(a, p) == [act |-> <<>>, art |-> a, par |-> p, pt |-> <<>>, sp |-> <<>>]
Lc(k) == [lc |-> <<CASE k = "amend" -> [date |-> "2013-02-28", k |-> "amend", r |-> R(<<"1">>, <<"2", "3">>)]
                    [] k = "auto" -> [date |-> "2013-02-28", k |-> "auto"]
                    [] OTHER -> [date |-> "2013-02-28", k |-> "other", s |-> "ok: igen"]>>]
Se(t, i, x) == [k |-> "se", t |-> t, id |-> i, title |-> x]
Sub(i, x) == [k |-> "sub", id |-> i, title |-> x]
ArtEl(i, t) == [k |-> "art", id |-> i, title |-> t, ch |-> <<>>]
T(i, x) == [id |-> i, x |-> x]
K(i, x, ct, l, wu) == [id |-> i, in |-> x, ct |-> ct, ch |-> l, wu |-> wu]
Si(refs, abbr, sp) == [si |-> [refs |-> refs, abbr |-> abbr, sp |-> sp]]
HeadsAll == {Se("book", "1", "Könyv"), Se("part", "2", ""), Se("spart", "3", "Záró"), Se("title", "4a", "Cím") @@ Lc("auto"), Se("chapter", "3999", "x") @@ Lc("amend"),
             Sub("", "Alcím"), Sub("12b", "Alcím") @@ Lc("other"), ArtEl("1:2/A", <<>>), ArtEl("3", <<"">>) @@ Lc("amend"), ArtEl("12/CS", <<"Cím">>)}
HeadsFew == {Se("part", "2", ""), Sub("12b", "Alcím"), ArtEl("1", <<>>), ArtEl("2", <<"Cím">>)}
Line(t) == <<t, 60, 0, 1>>
ParasAll == <<T("", ""), T("1", "null"), T("2", "szöveg - és") @@ Lc("auto"),
             T("3", "az 1. §") @@ Si(<< <<3, 7, R(<<"1">>, <<>>)>> >>, <<>>, <<>>),
             T("4", "é é") @@ Si(<< >>, << <<"Ptk.", 2013, 5>> >>, << [k |-> "rep", l |-> << [k |-> "r", r |-> R(<<"1", "2">>, <<>>)] >>] >>),
             T("5", "x") @@ Si(<<>>, <<>>, <<>>),
             K("6", "in", "ap", <<>>, <<"wu">>), K("7", "in", "np", <<>>, <<>>), K("8", "", "qb", <<[in |-> <<"i">>, ls |-> <<Line("l"), Line("")>>, wu |-> <<>>]>>, <<>>),
             K("9", "in", "ba", [in |-> <<>>, wu |-> <<"w">>, ct |-> "para", ch |-> <<T("1", "x"), T("2", "y")>>], <<>>),
             K("10", "in", "sba", [in |-> <<"i">>, wu |-> <<>>, ch |-> <<Sub("", "t"), ArtEl("9", <<>>)>>], <<"v">>) >>
ParasFew == <<T("", "hosszú szöveg, amely eltörik"), K("1", "in", "ap", <<>>, <<"wu">>), K("2", "", "np", <<>>, <<>>) >>
PointsAll == {"leaf", "noted", "kids"}
WithLast(s, e) == [s EXCEPT ![Len(s)] = e]
NextId(ct, l) == IF ct \in {"ap", "asp"} THEN Chr(Lower, Len(l) + 1) ELSE ToString(Len(l) + 1)
Grown(kind, ct, l) ==
    CASE kind = "leaf" -> T(NextId(ct, l), "x")
      [] kind = "noted" -> T(NextId(ct, l), "yes y") @@ Lc("other") @@ Si(<< <<0, 3, R(<<>>, <<"1">>)>> >>, <<>>, <<>>)
      [] OTHER -> K(NextId(ct, l), "k", IF ct = "ap" /\ Len(l) % 2 = 0 THEN "nsp" ELSE "asp", <<>>, <<>>)
Init == ch = <<>> /\ n = 0
AddHead == \E h \in Heads : ch' = Append(ch, h)
InArticle == ch # <<>> /\ Last(ch).k = "art"
AddPara == InArticle /\ \E q \in 1..Len(Paras) : ch' = WithLast(ch, [Last(ch) EXCEPT !.ch = Append(@, Paras[q])])
LastPara == Last(Last(ch).ch)
HasList(e) == ~IsText(e) /\ e.ct \in Walked
PutPara(p) == WithLast(ch, [Last(ch) EXCEPT !.ch = WithLast(@, p)])
AddPoint == /\ InArticle /\ Last(ch).ch # <<>> /\ HasList(LastPara)
            /\ \E k \in Points : ch' = PutPara([LastPara EXCEPT !.ch = Append(@, Grown(k, LastPara.ct, LastPara.ch))])
AddSubpoint == /\ InArticle /\ Last(ch).ch # <<>> /\ HasList(LastPara) /\ LastPara.ch # <<>> /\ HasList(Last(LastPara.ch))
               /\ LET pt == Last(LastPara.ch)
                  IN \E k \in Points \ {"kids"} : ch' = PutPara([LastPara EXCEPT !.ch = WithLast(@, [pt EXCEPT !.ch = Append(@, Grown(k, pt.ct, pt.ch))])])
Next == n < MaxLen /\ n' = n + 1 /\ (AddHead \/ AddPara \/ AddPoint \/ AddSubpoint)
TheAct == [y |-> 2012, n |-> 1, subject |-> "tárgy", pre |-> "bevezetés", date |-> "2012-01-02", abbr |-> <<>>, ch |-> ch]
In == CASE Op = "wire" -> [op |-> "wire", act |-> TheAct]
        [] Op = "walk" -> [op |-> "walk", act |-> TheAct, stop |-> 0]
        [] Op = "find" -> [op |-> "find", act |-> TheAct, ids |-> <<"1:2/A", "3", "1", "2", "12/CS">>]
        [] OTHER -> [op |-> "text", act |-> TheAct, width |-> 40, f |-> "plain", esc |-> ""]
LawsHold == DocLaws(In)
Emit == PrintT("@@" \o ToJson([i |-> In, e |-> DocExpected(In)]))
=============================================================================
