--------------------------------- MODULE Mk ---------------------------------
(***************************************************************************)
(* From the pages of an issue of Magyar Közlöny to the acts in it.          *)
(*                                                                         *)
(* The reader is a state machine fed one line at a time, and one empty line *)
(* at the end of each page: it waits for the section of acts, for an act's  *)
(* header after an empty line, reads the subject up to its asterisk, the    *)
(* body up to the signatures, and drops the asterisk's footnote.            *)
(***************************************************************************)
EXTENDS StructEval

ActRomans == {"I", "V", "X", "L", "C"}
(* "2012. évi C. törvény", whatever follows *)
ParseHeader(t) ==
    IF Len(t) < 12 \/ Chr(t, 1) \notin {"1", "2"} \/ Chr(t, 2) \notin {"0", "9"} \/ ~AllIn(SubSeq(t, 3, 4), DigitSet) \/ SubSeq(t, 5, 10) # ". évi " THEN Err
    ELSE LET d == Span(t, 11, ActRomans)
             n == IF d = 0 THEN Err ELSE FromRoman(SubSeq(t, 11, 10 + d))
         IN IF ~StartsWith(Drop(t, 10 + d), ". törvény") \/ ~IsOk(n) THEN Err ELSE Ok(<<DigitsVal(Take(t, 4)), n.v>>)
(* an act's number somewhere in the line (the periods may be anything) *)
RECURSIVE MentionsFrom(_, _)
MentionsFrom(t, i) ==
    LET p == FindStr(t, " évi ", i)
    IN IF p = 0 THEN FALSE
       ELSE \/ /\ p > 2 /\ Chr(t, p - 2) \in DigitSet
               /\ LET d == Span(t, p + 5, ActRomans) r == Drop(t, p + 4 + d)
                  IN d > 0 /\ (StartsWith(Drop(r, 1), " törvény") \/ (d > 1 /\ StartsWith(r, " törvény")))
            \/ MentionsFrom(t, p + 1)
Stops == <<"III. Kormányrendeletek", "IV. A Magyar Nemzeti Bank elnökének rendeletei", "V. A Kormány tagjainak rendeletei",
           "VI. Az Alkotmánybíróság határozatai", "VII. A Kúria határozatai", "IX. Határozatok Tára">>
IsStart(l) == l.b /\ l.t = "II. Törvények"
IsStop(l) == l.b /\ \E q \in 1..Len(Stops) : StartsWith(l.t, Stops[q])
Signed == {"köztársasági elnök az Országgyűlés elnöke", "köztársasági elnök az Országgyűlés alelnöke",
           "az Országgyűlés elnöke, az Országgyűlés alelnöke,"}

-----------------------------------------------------------------------------
NoAct == [id |-> <<0, 0>>, subject |-> "", body |-> <<>>]
M0 == [st |-> "gap", cur |-> NoAct, res |-> <<>>]
Back(s, n) == s[Len(s) - n]
BodyLine(m, l, stay) ==
    LET b == Append(m.cur.body, l)
    IN IF Len(b) > 4 /\ IsEmpty(Back(b, 2)) /\ l.t \in Signed
       THEN [st |-> "gap", cur |-> NoAct, res |-> Append(m.res, [m.cur EXCEPT !.body = SubSeq(b, 1, Len(b) - 3)])]
       ELSE [m EXCEPT !.cur.body = b, !.st = stay]
Feed(m, l) ==
    CASE m.st = "gap" -> IF IsEmpty(l) THEN [m EXCEPT !.st = "header"] ELSE m
      [] m.st = "header" ->
           LET h == ParseHeader(l.t) IN IF IsOk(h) THEN [m EXCEPT !.st = "subject", !.cur.id = h.v] ELSE IF IsEmpty(l) THEN m ELSE [m EXCEPT !.st = "gap"]
      [] m.st = "subject" ->
           LET s == JoinTo(m.cur.subject, l.t)
           IN IF EndsWith(s, "*") THEN [m EXCEPT !.st = "body", !.cur.subject = Take(s, Len(s) - 1)] ELSE [m EXCEPT !.cur.subject = s]
      [] m.st = "body" ->
           LET b == m.cur.body
           IN IF IsEmpty(l) /\ Len(b) > 2 /\ IsEmpty(Back(b, 1)) /\ StartsWith(Back(b, 0).t, "*")
              THEN [m EXCEPT !.st = "after", !.cur.body = SubSeq(b, 1, Len(b) - 1)]
              ELSE BodyLine(m, l, "body")
      [] m.st = "after" -> BodyLine(m, l, "after")
(* ex: inside the section of acts; seen: a section heading has been met *)
S0 == [ex |-> FALSE, seen |-> FALSE, m |-> M0]
Line1(s, l) ==
    LET ex == s.ex \/ (~s.seen /\ l.b /\ MentionsFrom(l.t, 1))
    IN IF IsStart(l) THEN [s EXCEPT !.ex = TRUE, !.seen = TRUE]
       ELSE IF IsStop(l) THEN [s EXCEPT !.ex = FALSE, !.seen = TRUE]
       ELSE IF ex THEN [s EXCEPT !.ex = TRUE, !.m = TLCEval(Feed(s.m, l))] ELSE s
PageEnd(s) == IF s.ex THEN [s EXCEPT !.m = TLCEval(Feed(s.m, NoLine))] ELSE s
RECURSIVE PageGo(_, _, _), PagesGo(_, _, _)
PageGo(s, ls, n) == IF n > Len(ls) THEN PageEnd(s) ELSE PageGo(TLCEval(Line1(s, ls[n])), ls, n + 1)
PagesGo(s, ps, n) == IF n > Len(ps) THEN s ELSE PagesGo(PageGo(s, ps[n], 1), ps, n + 1)
RECURSIVE Singles(_, _)
Singles(ls, n) == IF n > Len(ls) THEN <<>>
                  ELSE (IF n > 1 /\ IsEmpty(ls[n]) /\ IsEmpty(ls[n - 1]) THEN <<>> ELSE <<ls[n]>>) \o Singles(ls, n + 1)
MkActs(ps) ==
    IF Len(ps) < 2 \/ Len(ps[1]) < 4 THEN Err
    ELSE IF ~StartsWith(ps[1][1].t, "MAGYAR KÖZLÖNY") THEN Err
    ELSE LET d == ParseDate(ps[1][4].t)
             s == TLCEval(PagesGo(S0, ps, 1))
         IN IF ~IsOk(d) THEN Err
            ELSE Ok([q \in 1..Len(s.m.res) |-> [id |-> s.m.res[q].id, subject |-> s.m.res[q].subject, date |-> d.v, body |-> Singles(s.m.res[q].body, 1)]])
ActView(a) == [a EXCEPT !.body = [q \in 1..Len(a.body) |-> LineView(a.body[q])]]
PagesOf(ps) == TLCEval([q \in 1..Len(ps) |-> LinesOf(ps[q])])
MkExpected(i) ==
    LET r == TLCEval(MkActs(PagesOf(i.ps))) IN IF IsOk(r) THEN Ok([q \in 1..Len(r.v) |-> ActView(r.v[q])]) ELSE Err

-----------------------------------------------------------------------------
(* laws: the acts' lines are lines of the issue, in order, none twice; no    *)
(* act keeps its signatures or doubled empty lines; acts come in order.      *)
RECURSIVE Flat(_, _)
Flat(ps, n) == IF n > Len(ps) THEN <<>> ELSE ps[n] \o Flat(ps, n + 1)
NonEmpty(ls) == SelectSeq(ls, LAMBDA l : ~IsEmpty(l))
RECURSIVE IsSubseq(_, _, _, _)
IsSubseq(a, p, b, q) == p > Len(a) \/ (q <= Len(b) /\ IF a[p] = b[q] THEN IsSubseq(a, p + 1, b, q + 1) ELSE IsSubseq(a, p, b, q + 1))
RECURSIVE Bodies(_, _)
Bodies(as, n) == IF n > Len(as) THEN <<>> ELSE NonEmpty(as[n].body) \o Bodies(as, n + 1)
MkLaws(i) ==
    LET ps == PagesOf(i.ps) r == TLCEval(MkActs(ps))
    IN IsOk(r) =>
         /\ IsSubseq(TLCEval(Bodies(r.v, 1)), 1, TLCEval(NonEmpty(Flat(ps, 1))), 1)
         /\ \A q \in 1..Len(r.v) :
              LET b == r.v[q].body
              IN /\ \A n \in 2..Len(b) : ~(IsEmpty(b[n]) /\ IsEmpty(b[n - 1]))
                 /\ r.v[q].id[2] \in 1..3999 /\ r.v[q].id[1] \in 1000..2999
                 /\ \A n \in 1..Len(b) : ~IsStart(b[n]) /\ ~IsStop(b[n])

-----------------------------------------------------------------------------
(* An issue as it is set: cover, contents, the section of acts, and what    *)
(* follows.  i = [cover, toc, acts |-> <<[id, subject |-> lines, pages |-> *)
(* <<lines>>, blank pages after it, empty lines before it]>>, note, sign, rest, sec: whether the section has its heading] *)
SetAct(a, note, sign) ==
    (* the first page ends with the footnote; the last one with the signatures *)
    LET head == <<L(a.head, 0, TRUE, FALSE)>> \o LinesOf(a.subject)
        n == Len(a.pages)
        pg(q) == (IF q = 1 THEN [z \in 1..a.lead |-> NoLine] \o head \o <<NoLine>> ELSE <<>>) \o LinesOf(a.pages[q])
                 \o (IF q = n THEN <<NoLine, L("X s. k., Y s. k.,", 40, FALSE, FALSE), L(sign, 40, FALSE, FALSE)>> ELSE <<>>)
                 \o (IF q = 1 /\ a.note THEN <<NoLine, L(note, 0, FALSE, FALSE)>> ELSE <<>>)
    IN [q \in 1..n |-> pg(q)] \o [q \in 1..a.blank |-> <<NoLine>>]
RECURSIVE SetActs(_, _, _, _)
SetActs(as, n, note, sign) == IF n > Len(as) THEN <<>> ELSE SetAct(as[n], note, sign) \o SetActs(as, n + 1, note, sign)
Heading == L("II. Törvények", 0, TRUE, FALSE)
Issue(i) ==
    LET acts == SetActs(i.acts, 1, i.note, i.sign)
    IN <<LinesOf(i.cover)>> \o (IF i.toc = <<>> THEN <<>> ELSE <<LinesOf(i.toc)>>)
       \o <<(IF i.sec THEN <<Heading, NoLine>> ELSE <<>>) \o acts[1]>> \o Tail(acts)
       \o (IF i.rest = <<>> THEN <<>> ELSE <<LinesOf(i.rest)>>)
(* what must be read: footnote on a page that is not the last is dropped *)
RECURSIVE PageBodies(_, _, _)
PageBodies(a, n, acc) ==
    IF n > Len(a.pages) THEN acc
    ELSE PageBodies(a, n + 1, acc \o LinesOf(a.pages[n]) \o (IF n < Len(a.pages) THEN <<NoLine>> ELSE <<>>))
IssueActs(i) ==
    [q \in 1..Len(i.acts) |->
       [id |-> i.acts[q].id, subject |-> LET s == JoinAll(TextsOf(LinesOf(i.acts[q].subject))) IN Take(s, Len(s) - 1), date |-> i.date,
        body |-> Singles(<<NoLine>> \o PageBodies(i.acts[q], 1, <<>>), 1)]]
IssueViews(i) == LET ps == Issue(i) IN [q \in 1..Len(ps) |-> [z \in 1..Len(ps[q]) |-> LineView(ps[q][z])]]
IssueExpected(i) == LET a == IssueActs(i) IN [ps |-> IssueViews(i), acts |-> [q \in 1..Len(a) |-> ActView(a[q])]]
IssueLaws(i) == MkActs(Issue(i)) = Ok(IssueActs(i))
=============================================================================
