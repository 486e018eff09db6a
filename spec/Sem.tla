--------------------------------- MODULE Sem --------------------------------
(***************************************************************************)
(* Adding meaning to an act.  Every element below the articles is read in   *)
(* the context of the introductions above it and the closing texts after it;*)
(* a citation belongs to the element in which it ends.  Abbreviations that  *)
(* a text introduces are known from there on, across elements and across    *)
(* repeated readings.                                                       *)
(***************************************************************************)
EXTENDS Phrase

HasKids(e) == "ct" \in DOMAIN e
(* a text that follows another one is separated from it by a blank *)
After(as) == IF as = <<>> THEN <<>> ELSE [as EXCEPT ![1].p = " "]
Then(a, b) == IF a = <<>> THEN b ELSE a \o After(b)

(* what one element's text is found to say: its citations, the abbreviations *)
(* introduced in the passage and its operative phrase                        *)
(* what only leads to the next element does not count *)
Leads(a) == \/ a.k = "sep" /\ ~EndsWith(a.s, " az")
            \/ a.k = "kw" /\ a.o = "az" /\ a.s = "a"
RECURSIVE Trimmed(_)
Trimmed(mid) == IF Len(mid) > 1 /\ Leads(mid[Len(mid)]) THEN (IF mid[Len(mid)].k = "kw" THEN Trimmed(SubSeq(mid, 1, Len(mid) - 1)) ELSE SubSeq(mid, 1, Len(mid) - 1)) ELSE mid
(* a sentence is closed *)
Full == [k |-> "w", p |-> "", s |-> "."]
IsClosed(t) == \E c \in {".", ":", "!", "?"} : EndsWith(t, c)
ReadText(pre, text, post, known) ==
    LET mid == Trimmed(text)
        whole == Then(Then(pre, mid), post)
        as == Merged(IF post = <<>> /\ ~IsClosed(Text(mid)) THEN Append(whole, Full) ELSE whole)
        new == NewAbbr(as, 1)
        bad == \E q \in 1..Len(new) : ~IsOk(new[q].a)
        late == AddAbbr(known, new, 1)
        ph == PhraseOf(as, known, late)
        marks == IF ph.k = "none" THEN Ok(Cites(as, 1, known, late, Starts(as))) ELSE ph.marks
        plen == IF pre = <<>> THEN 0 ELSE Bytes(Text(pre)) + 1
        mlen == Bytes(Text(mid))
        here == IF IsOk(marks) THEN SelectSeq(marks.v, LAMBDA m : m.e > plen /\ m.e <= plen + mlen) ELSE <<>>
    IN IF bad \/ ~IsOk(marks) \/ (ph.k # "none" /\ ~IsOk(ph.sp)) THEN Err
       ELSE Ok([info |-> [refs |-> [q \in 1..Len(here) |-> <<Max2(0, here[q].s - plen), here[q].e - plen, CRef(here[q].r)>>],
                          ab |-> CKnown(AddAbbr([n \in {} |-> n], new, 1)),
                          sp |-> IF ph.k = "none" THEN <<>> ELSE <<ph.sp.v>>],
                kind |-> ph.k, known |-> late,
                changed |-> \E q \in 1..Len(new) : LET k == AddAbbr(known, SubSeq(new, 1, q - 1), 1)
                                                   IN new[q].n \notin DOMAIN k \/ k[new[q].n] # new[q].a.v])

(* state of a reading: what is known, whether that changed, what was found *)
R0(known) == [ok |-> TRUE, known |-> known, changed |-> FALSE, els |-> <<>>]
Took(r, x, intro) ==
    IF ~IsOk(x) THEN [r EXCEPT !.ok = FALSE]
    ELSE [r EXCEPT !.known = x.v.known, !.changed = @ \/ x.v.changed,
                   !.els = Append(@, IF intro /\ x.v.kind \notin {"ba", "sba"} THEN [x.v.info EXCEPT !.sp = <<>>] ELSE x.v.info)]
RECURSIVE ReadEl(_, _, _, _), ReadEls(_, _, _, _, _)
ReadEl(r, e, pre, post) ==
    IF ~r.ok THEN r
    ELSE IF ~HasKids(e) THEN Took(r, ReadText(pre, e.as, post, r.known), FALSE)
    ELSE ReadEls(Took(r, ReadText(pre, e.as, post, r.known), TRUE), e.ch, Then(pre, e.as), Then(e.wu, post), 1)
ReadEls(r, es, pre, post, q) == IF q > Len(es) \/ ~r.ok THEN r ELSE ReadEls(ReadEl(r, es[q], pre, post), es, pre, post, q + 1)

-----------------------------------------------------------------------------
(* Histories: the act is read as a whole or one article at a time, and its   *)
(* articles may be exchanged in between                                      *)
NoInfo == [refs |-> <<>>, ab |-> CNothing, sp |-> <<>>]
RECURSIVE CountEls(_, _)
CountEls(es, q) == IF q > Len(es) THEN 0 ELSE 1 + (IF HasKids(es[q]) THEN CountEls(es[q].ch, 1) ELSE 0) + CountEls(es, q + 1)
Blank(arts) == [q \in 1..Len(arts) |-> [j \in 1..CountEls(arts[q].ps, 1) |-> NoInfo]]
RECURSIVE ReadArts(_, _, _)
ReadArts(r, arts, q) == IF q > Len(arts) \/ ~r.ok THEN r ELSE ReadArts(ReadEls(r, arts[q].ps, <<>>, <<>>, 1), arts, q + 1)
RECURSIVE Split(_, _, _)
Split(els, arts, q) == IF q > Len(arts) THEN <<>>
                       ELSE LET n == CountEls(arts[q].ps, 1) IN <<SubSeq(els, 1, n)>> \o Split(SubSeq(els, n + 1, Len(els)), arts, q + 1)
RECURSIVE Flat(_, _)
Flat(found, q) == IF q > Len(found) THEN <<>> ELSE found[q] \o Flat(found, q + 1)

(* w: [arts, found (per article), known] *)
StepOf(w, s) ==
    LET arts == IF s.arts = <<>> THEN w.arts ELSE s.arts
        found == IF s.arts = <<>> THEN w.found ELSE Blank(arts)
        at == {q \in 1..Len(arts) : arts[q].id = s.do}
        one == CHOOSE q \in at : \A x \in at : q <= x
        r == IF s.do = "all" THEN ReadArts(R0(w.known), arts, 1)
             ELSE IF at = {} THEN [R0(w.known) EXCEPT !.ok = FALSE]
             ELSE ReadEls(R0(w.known), arts[one].ps, <<>>, <<>>, 1)
        new == IF s.do = "all" THEN Split(r.els, arts, 1) ELSE [found EXCEPT ![one] = r.els]
    IN IF ~r.ok THEN [w |-> [w EXCEPT !.arts = arts], o |-> [r |-> "err", known |-> CKnown(w.known)]]
       ELSE [w |-> [arts |-> arts, found |-> new, known |-> r.known],
             o |-> [r |-> "ok", changed |-> r.changed, known |-> CKnown(r.known), els |-> Flat(new, 1), same |-> TRUE]]
RECURSIVE History(_, _, _)
History(w, ss, q) == IF q > Len(ss) THEN <<>>
                     ELSE LET s == StepOf(w, ss[q]) IN <<s.o>> \o (IF s.o.r = "ok" THEN History(s.w, ss, q + 1) ELSE <<>>)

(* the texts of the elements, as they are given to the code *)
RECURSIVE TextsOf(_)
TextsOf(e) == [id |-> e.id, x |-> Text(e.as) \o e.junk] @@
              (IF HasKids(e) THEN [ct |-> e.ct, ch |-> [q \in 1..Len(e.ch) |-> TextsOf(e.ch[q])], wu |-> Text(e.wu)] ELSE CNothing)
(* laws *)
InOrder(refs) == \A q \in 1..Len(refs) : refs[q][1] < refs[q][2] /\ (q > 1 => refs[q - 1][2] <= refs[q][1])
SemLaws(h) == \A q \in 1..Len(h) : h[q].r = "ok" => \A j \in 1..Len(h[q].els) : InOrder(h[q].els[j].refs)
KnownOf(l) == AddAbbr([n \in {} |-> n], [q \in 1..Len(l) |-> [n |-> l[q][1], a |-> Ok(<<l[q][2], l[q][3]>>)]], 1)
HistoryOf(i) == History([arts |-> <<>>, found |-> <<>>, known |-> KnownOf(i.known)], i.steps, 1)
SemExpected(i, h) == [v |-> h, x |-> [q \in 1..Len(i.steps) |->
                      [j \in 1..Len(i.steps[q].arts) |-> [id |-> i.steps[q].arts[j].id, ps |-> [m \in 1..Len(i.steps[q].arts[j].ps) |-> TextsOf(i.steps[q].arts[j].ps[m])]]]],
                   known |-> CKnown(KnownOf(i.known))]
=============================================================================
