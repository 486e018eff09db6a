------------------------------- MODULE MC_Mk --------------------------------
(***************************************************************************)
(* All ways an issue can go on from a given beginning, line by line, page   *)
(* break by page break.  The machine's state is explored next to the pages: *)
(* reading the pages afresh must give what the machine has collected, and   *)
(* reading on never changes an act that is complete.                        *)
(***************************************************************************)
EXTENDS Mk, Json
CONSTANTS Start, Vocab, MaxLen
VARIABLES ps, s, n
BreakTok == L("@page", 0, FALSE, FALSE)
Cover == <<L("MAGYAR KÖZLÖNY 71. szám", 0, FALSE, FALSE), NoLine, L("A MAGYAR KÖZTÁRSASÁG HIVATALOS LAPJA", 0, FALSE, FALSE),
           L("2011. június 28., kedd", 0, FALSE, FALSE)>>
Text(t) == L(t, 4, FALSE, TRUE)
Bold(t) == L(t, 4, TRUE, FALSE)
StartPlain == <<Cover, <<Text("Tartalom")>>>>
StartSection == <<Cover, <<Heading, NoLine>>>>
StartAct == <<Cover, <<Heading, NoLine, Bold("2011. évi LXXX. törvény"), Bold("a cél"), Bold("módosításáról*"), NoLine, Text("1. § A")>>>>
StartSubject == <<Cover, <<Heading, NoLine, Bold("2011. évi LXXX. törvény"), Bold("a célról*")>>>>
StartEnd == <<Cover, <<Heading, NoLine, Bold("2011. évi LXXX. törvény"), Bold("a célról*"), NoLine, Text("1. § A"), NoLine, Text("* A törvényt.")>>,
              <<Text("2. § B"), NoLine, Text("X s. k., Y s. k.,")>>>>
VocabHead == {NoLine, BreakTok, Heading, Bold("2011. évi LXXX. törvény"), Text("2012. évi V. törvény a dologról"), Bold("a dologról*"),
              Bold("III. Kormányrendeletek"), Text("III. Kormányrendeletek"), Bold("2012. évi IIX. törvény"), Text("x")}
VocabBody == {NoLine, BreakTok, Text("* A törvényt."), Text("x"), Text("köztársasági elnök az Országgyűlés elnöke"),
              Text("az Országgyűlés elnöke, az Országgyűlés alelnöke,"), Text("X s. k., Y s. k.,"), Bold("2012. évi V. törvény a dologról*"), Bold("IX. Határozatok Tára")}
VocabTiny == {NoLine, Text("x"), Text("* A törvényt."), Text("köztársasági elnök az Országgyűlés elnöke")}
Vars == <<ps, s, n>>
RECURSIVE Open(_, _, _)
(* the machine after all pages, the last one still open *)
PageOpen(m, ls) == FoldLeft(LAMBDA a, l : TLCEval(Line1(a, l)), m, ls)
Open(m, qs, q) == IF q = Len(qs) THEN PageOpen(m, qs[q]) ELSE Open(PageEnd(PageOpen(m, qs[q])), qs, q + 1)
Init == n = 0 /\ ps = Start /\ s = Open(S0, Start, 1)
Put(l) == /\ n < MaxLen
          /\ n' = n + 1
          /\ IF l = BreakTok THEN ps' = Append(ps, <<>>) /\ s' = PageEnd(s)
             ELSE ps' = [ps EXCEPT ![Len(ps)] = Append(@, l)] /\ s' = TLCEval(Line1(s, l))
Next == \E l \in Vocab : Put(l)
(* the fed machine and the reader of whole issues agree *)
Agree == LET r == MkActs(ps) IN IsOk(r) /\ Len(r.v) = Len(PageEnd(s).m.res)
(* complete acts are never touched again, and none is complete outside the section *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Kept == [][Prefix(s.m.res, s'.m.res)]_Vars
OnlyInside == [][Len(s'.m.res) > Len(s.m.res) => s'.ex]_Vars
InBody == s.m.st \in {"body", "after"} \/ s.m.cur.body = <<>>
LawsHold == MkLaws([ps |-> [q \in 1..Len(ps) |-> [z \in 1..Len(ps[q]) |-> LineView(ps[q][z])]]])
Emit == LET v == [ps |-> [q \in 1..Len(ps) |-> [z \in 1..Len(ps[q]) |-> LineView(ps[q][z])]]]
        IN PrintT("@@" \o ToJson([i |-> v, e |-> MkExpected(v)]))
=============================================================================
