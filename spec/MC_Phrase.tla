------------------------------ MODULE MC_Phrase -----------------------------
(***************************************************************************)
(* Every sentence of a few atoms that begins as an amendment, a repeal or an *)
(* enforcement date may, read as one text, and with its middle part in a     *)
(* point of its own.                                                         *)
(***************************************************************************)
EXTENDS Sem, Json
CONSTANTS Start, Vocab, MaxLen
VARIABLES pick, lay
vars == <<pick, lay>>

K(o, s) == [k |-> "kw", o |-> o, p |-> " ", s |-> s]
K0(o, s) == [K(o, s) EXCEPT !.p = ""]
P1(s) == [s |-> s, e |-> "", d |-> "", f |-> 0, sep |-> ""]
R(t, ps, suf) == [k |-> "ref", p |-> " ", lv |-> <<[t |-> t, ps |-> ps, suf |-> suf]>>]
Ab == [k |-> "ab", p |-> " ", s |-> "Abc."]
Sep == [k |-> "sep", p |-> "", s |-> ", valamint"]
S(t, id, suf, to) == [k |-> "str", p |-> " ", t |-> t, bk |-> "", bsuf |-> "", id |-> id, e |-> "", d |-> "", suf |-> suf, to |-> to]
Q(s) == [k |-> "q", p |-> " ", s |-> s]
Colon == [k |-> "w", p |-> "", s |-> ":"]
Full1 == [k |-> "w", p |-> "", s |-> "."]
Day == [k |-> "day", p |-> " ", t |-> "date", y |-> "2012", m |-> "február", n |-> "29", suf |-> "-én", lead |-> ""]
Days == [k |-> "day", p |-> " ", t |-> "days", y |-> "", m |-> "", n |-> "nyolcadik", suf |-> "", lead |-> "a kihirdetését"]
Amend == K("amend", "helyébe a következő rendelkezés lép")
Ins == K("ins", "a következő")
InsEnd == K("insend", "egészül ki")

StartAct == <<K0("az", "A"), Ab>>
StartGone == <<K0("gone", "Hatályát veszti"), K("az", "az"), Ab>>
StartThis == <<K0("thisact", "Ez a törvény")>>
StartThe == <<K0("az", "A")>>
VocabBlock == <<R("art", <<P1("5")>>, "§-a"), R("para", <<P1("2"), [P1("3") EXCEPT !.e = "4a", !.d = "–", !.sep = " és "]>>, "bekezdése"), R("ap", <<P1("dz")>>, "pontja"),
               R("asp", <<P1("ab")>>, "alponttal"), Amend, Ins, InsEnd, Colon, K("thisart", "a §")>>
VocabSub == <<R("art", <<P1("5/B")>>, "§-a"), S("chapter", "IX/A", "Fejezete", ""), S("subt", "A díj", "alcíme", ""), K("subtitle", "alcíme"), K("andthe", "és az azt megelőző"), K("and", "és"), K("before", "előtti"),
             K("amendany", "helyébe a következő alcím lép"), Ins, InsEnd, Colon>>
VocabText == <<R("art", <<P1("5")>>, "§-ában"), R("para", <<P1("2"), [P1("3") EXCEPT !.sep = " és "]>>, "bekezdésében"), S("sub", "7", "alcíme", ""), S("part", "Második", "Rész", "címe"), Sep, K("arttitle", "címében"),
              K("intro", "nyitó szövegrészében"), K("after", "követő"), K("subtitle", "alcímben")>>
VocabGone == <<R("art", <<P1("5")>>, "§-a"), R("para", <<P1("2")>>, "bekezdése"), S("title", "II", "Címe", ""), Sep, K("arttitle", "címe"), K("wrapup", "záró szövegrésze"), Q("x"), K("text", "szövegrésze")>>
VocabDate == <<R("art", <<P1("5"), [P1("7") EXCEPT !.e = "9", !.d = "–", !.sep = ", "]>>, "§-a"), R("ap", <<P1("c")>>, "pontja"), S("chapter", "X", "Fejezete", ""), Sep, K("dash", "–"), K("az", "a"),
              K("except", "foglaltak kivételével"), Day, Days, K("inforce", "lép hatályba")>>
(* what closes a sentence, for the starts that need it *)
EndText == <<K("az", "az"), Q("a „b”"), K("instead", "szövegrész helyébe"), K("az", "a"), Q("c"), K("text", "szöveg"), K("lep", "lép"), Full1>>
EndForce == <<Day, K("inforce", "lép hatályba"), K0("andact", ", és"), [Day EXCEPT !.y = "2013", !.n = "28"], K("expires", "hatályát veszti")>>
EndNone == <<>>
EndAmend == <<Amend, Colon>>
EndIns == <<InsEnd, Colon>>
EndSub == <<K("amendany", "helyébe a következő alcím lép"), Colon>>
CONSTANT End

Open == <<0, 0>>
(* the state holds which atoms were chosen, by their places in the vocabulary *)
Init == pick = <<>> /\ lay = Open
Next == /\ lay = Open
        /\ \/ Len(pick) < MaxLen /\ lay' = lay /\ \E a \in 1..Len(Vocab) : pick' = Append(pick, a)
           \/ pick' = pick /\ \E d \in {0, 1} : (d = 1 => pick # <<>>) /\ lay' = <<1, d>>

Fresh(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![1].p = ""]
Mid == [q \in 1..Len(pick) |-> Vocab[pick[q]]]
as == Start \o Mid
Element == IF lay[2] = 0 THEN [id |-> "", as |-> as \o End, junk |-> ""]
           ELSE [id |-> "", as |-> Start, junk |-> "", ct |-> "ap", ch |-> <<[id |-> "a", as |-> Fresh(Mid), junk |-> ""]>>, wu |-> Fresh(End)]
(* a text is given with a separator, or a mark, only after something; and    *)
(* what would be read as part of its neighbour is left out                   *)
Kw(q, o) == as[q].k = "kw" /\ as[q].o = o
Sensible == /\ lay # Open
            /\ lay[2] = 1 => Mid[1].k \notin {"sep"} /\ ~(Mid[1].k = "w")
            /\ lay[2] = 1 \/ End = <<>> => ~Kw(Len(as), "and")
            /\ \A q \in 2..Len(as) : /\ ~(as[q].k = "sep" /\ as[q - 1].k = "sep")
                                     /\ ~(Kw(q, "az") /\ Kw(q - 1, "az"))
                                     /\ ~(Kw(q, "and") /\ as[q - 1].k = "ref")
                                     /\ ~(Kw(q, "ins") /\ Kw(q - 1, "and"))
                                     /\ ~(Kw(q, "arttitle") /\ as[q - 1].k = "str")
                                     /\ ~(q > 2 /\ Kw(q - 2, "after") /\ (as[q - 1].k = "str" \/ Kw(q - 1, "subtitle")) /\ (as[q].k = "str" \/ Kw(q, "arttitle")))
                                     /\ ~(Kw(q, "dash") /\ Kw(q - 1, "az"))
Input == [known |-> <<<<"Abc.", 1999, 7>>>>, steps |-> <<[do |-> "all", arts |-> <<[id |-> "1", ps |-> <<Element>>]>>]>>]

(* laws *)
PhraseHere == LET x == IF lay[2] = 0 THEN as \o End ELSE Then(Then(Start, Mid), End)
              IN PhraseOf(Merged(IF IsClosed(Text(x)) THEN x ELSE Append(x, Full)), KnownOf(Input.known), KnownOf(Input.known))
(* what a phrase names lies in the text, in order, and carries the act it is about *)
Sound(p) == p.k # "none" /\ IsOk(p.marks) =>
              /\ \A q \in 1..Len(p.marks.v) : LET m == p.marks.v[q] IN m.s < m.e /\ (q > 1 => p.marks.v[q - 1].e <= m.s) /\ (p.k # "ed" => m.r[1] # <<>>) /\ Valid(m.r)
(* a block amendment covers everything it names *)
Spans(p) == p.k = "ba" /\ IsOk(p.marks) /\ IsOk(p.sp) =>
              \A q \in 1..Len(p.marks.v) : LET r == p.marks.v[q].r
                                          IN ActOnly(r) \/ (RefCmp(FirstIn(p.span.v), FirstIn(r)) <= 0 /\ RefCmp(LastIn(r), LastIn(p.span.v)) <= 0)
(* a sentence that says nothing else is never refused *)
OnlyCites(p, h) == p.k = "none" => h[1].r = "ok"
Laws4 == Sensible => LET h == HistoryOf(Input) p == PhraseHere
                     IN SemLaws(h) /\ Sound(p) /\ Spans(p) /\ OnlyCites(p, h) /\ PrintT("@@" \o ToJson([i |-> Input, e |-> SemExpected(Input, h)]))
=============================================================================
