------------------------------- MODULE MC_Sem -------------------------------
(***************************************************************************)
(* Every short text over a vocabulary of atoms, laid out as a plain          *)
(* paragraph, as an introduction with a point, and with a closing text, read *)
(* three times over.                                                         *)
(***************************************************************************)
EXTENDS Sem, Json
CONSTANTS Vocab, MaxLen, Known
VARIABLES as, lay
vars == <<as, lay>>

W(s) == [k |-> "w", p |-> " ", s |-> s]
P1(s, sep) == [s |-> s, e |-> "", d |-> "", f |-> 0, sep |-> sep]
A(y, n, ab) == [k |-> "act", p |-> " ", y |-> y, n |-> n, suf |-> "törvény", colon |-> ":", ab |-> ab]
Ref1(t, ps, suf) == [k |-> "ref", p |-> " ", lv |-> <<[t |-> t, ps |-> ps, suf |-> suf]>>]
Sep == [k |-> "sep", p |-> "", s |-> ", valamint a"]
Ab == [k |-> "ab", p |-> " ", s |-> "Abc."]
VocabCite == {A("2012", "V", ""), Ab, Ref1("art", <<P1("5", "")>>, "§-a"), Ref1("para", <<P1("2", ""), [P1("3", " és ") EXCEPT !.e = "4a", !.d = "–"]>>, "bekezdése"),
              Ref1("ap", <<P1("dz", "")>>, "pont"), Ref1("asp", <<P1("ab", "")>>, "alpontja"), Sep, W("szó"), [k |-> "q", p |-> " ", s |-> "Abc. 5. §"]}
VocabName == {A("2012", "V", "Abc."), A("2013", "C", "Abc."), A("1990", "IV", "Abc. vhr."), Ab, [k |-> "ab", p |-> " ", s |-> "Abc. vhr."], Ref1("art", <<P1("1:5/B", "")>>, "§"), W("szó")}
VocabBad == {A("2012", "IIII", ""), Ab, Ref1("art", <<P1("5", "")>>, "§-a"), Ref1("art", <<P1("70000", "")>>, "§"), Ref1("asp", <<P1("ab", "")>>, "alpontja"), Sep, W("szó")}
KnownNone == <<>>
KnownAbc == <<<<"Abc.", 1999, 7>>>>

Open == <<0, 0>>
Init == as = <<[W("Szó") EXCEPT !.p = ""]>> /\ lay = Open
Next == /\ lay = Open
        /\ \/ Len(as) < MaxLen /\ lay' = lay /\ \E a \in Vocab : as' = Append(as, a)
           \/ as' = as /\ \E c \in 1..Len(as), d \in 1..Len(as) : (c < d \/ (c = d /\ d = Len(as))) /\ lay' = <<c, d>>

Fresh(s) == IF s = <<>> THEN s ELSE [s EXCEPT ![1].p = ""]
Apart(e) == e.ch[1].as[1].k # "sep" /\ (e.wu = <<>> \/ e.wu[1].k # "sep")
Element == LET c == lay[1] d == lay[2]
           IN IF c = d THEN [id |-> "", as |-> as, junk |-> ""]
              ELSE [id |-> "", as |-> SubSeq(as, 1, c), junk |-> "", ct |-> "ap",
                    ch |-> <<[id |-> "a", as |-> Fresh(SubSeq(as, c + 1, d)), junk |-> ""]>>, wu |-> Fresh(SubSeq(as, d + 1, Len(as)))]
Once == [do |-> "all", arts |-> <<>>]
Input == [known |-> Known, steps |-> <<[Once EXCEPT !.arts = <<[id |-> "1", ps |-> <<Element>>]>>], Once, [Once EXCEPT !.do = "1"]>>]
(* a point or a closing text does not begin with what separates references *)
Closed == lay # Open /\ (HasKids(Element) => Apart(Element))
H == HistoryOf(Input)

Intros == {q \in 1..Len(as) : Introduces(as[q])}
Consistent == \A q, r \in Intros : as[q].ab = as[r].ab => ActOf(as[q]) = ActOf(as[r])
(* reading again adds nothing: what is known settles after the first reading, what is found after the second *)
Settles(h) == Len(h) = 3 => /\ Consistent => ~h[2].changed
                            /\ h[3].known = h[2].known
                            /\ Consistent => h[3].els = h[2].els
                            /\ h[2].changed => ~Consistent
(* what was known stays known *)
Remembers(h) == \A q \in 1..Len(h) : h[q].r = "ok" => \A n \in 1..Len(Known) : Known[n][1] \in DOMAIN h[q].known
(* a text never fails to be read for what it cites *)
NeverFails(h) == (\A q \in Intros : IsOk(ActOf(as[q]))) => \A q \in 1..Len(h) : h[q].r = "ok"
Laws3 == Closed => LET h == H IN SemLaws(h) /\ Settles(h) /\ Remembers(h) /\ NeverFails(h) /\ PrintT("@@" \o ToJson([i |-> Input, e |-> SemExpected(Input, h)]))
=============================================================================
