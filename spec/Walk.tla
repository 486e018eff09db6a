-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Acts as trees: emptiness, lookup of articles, and visiting every element *)
(* below the articles together with its position.  Quoted blocks and the    *)
(* contents of amendments are not visited.                                  *)
(***************************************************************************)
EXTENDS Ident

IsText(e) == "x" \in DOMAIN e
Lead(e) == IF IsText(e) THEN e.x ELSE e.in
TypeName(ct) == CASE ct = "para" -> "Paragraph" [] ct = "ap" -> "AlphabeticPoint" [] ct = "np" -> "NumericPoint"
                  [] ct = "asp" -> "AlphabeticSubpoint" [] OTHER -> "NumericSubpoint"
Walked == {"para", "ap", "np", "asp", "nsp"}

RECURSIVE EmptyEl(_)
AllEmpty(es) == \A q \in 1..Len(es) : EmptyEl(es[q])
EmptyEl(e) == IF IsText(e) THEN e.x = ""
              ELSE CASE e.ct = "qb" -> e.ch = <<>>
                     [] e.ct = "ba" -> AllEmpty(e.ch.ch)
                     [] e.ct = "sba" -> e.ch.ch = <<>>
                     [] OTHER -> AllEmpty(e.ch)

Articles(act) == SelectSeq(act.ch, LAMBDA c : c.k = "art")
(* position of the first child that is the article with this identifier, 0 if there is none *)
ArticleAt(ch, id) == LET m == {q \in 1..Len(ch) : ch[q].k = "art" /\ ch[q].id = id}
                     IN IF m = {} THEN 0 ELSE Min(m)

-----------------------------------------------------------------------------
(* Positions *)
ActPos(act) == [act |-> [year |-> act.y, number |-> act.n]]
PartOf(ct) == CASE ct = "art" -> "article" [] ct = "para" -> "paragraph" [] ct \in {"ap", "np"} -> "point" [] OTHER -> "subpoint"
Below(at, ct, id) == IF ct = "para" /\ id = "" THEN at ELSE at @@ (PartOf(ct) :> id)

-----------------------------------------------------------------------------
(* The visit.  A walk is what has been seen, whether it was broken off, and *)
(* what the visitor does: it breaks off at event number `stop` and, when it *)
(* may change the act, replaces what it enters at the events in `cuts` by   *)
(* a text and marks everything it leaves.                                   *)
Walk0(stop, cuts, mut) == [ev |-> <<>>, off |-> FALSE, stop |-> stop, cuts |-> cuts, mut |-> mut]
Note(w, k, at, ct, e) ==
    LET ev == Append(w.ev, [k |-> k, at |-> at, ty |-> TypeName(ct), x |-> Lead(e), empty |-> EmptyEl(e)])
    IN [w EXCEPT !.ev = ev, !.off = Len(ev) = w.stop]
Plain(e) == IF IsText(e) THEN [id |-> e.id, x |-> e.x] ELSE [id |-> e.id, in |-> e.in, ct |-> e.ct, ch |-> e.ch, wu |-> e.wu]
Entered(w, e) == IF w.mut /\ Len(w.ev) \in w.cuts THEN [id |-> e.id, x |-> "cut " \o ToString(Len(w.ev))] ELSE e
Left(w, e) == IF ~w.mut THEN e ELSE IF IsText(e) THEN [e EXCEPT !.x = @ \o "+"] ELSE [e EXCEPT !.in = @ \o "+"]

RECURSIVE WalkEl(_, _, _, _), WalkList(_, _, _, _, _)
WalkEl(e0, ct, base, w0) ==
    LET at == Below(base, ct, e0.id)
        w1 == Note(w0, "in", at, ct, e0)
        e1 == Entered(w1, e0)
        in == IF IsText(e1) \/ e1.ct \notin Walked THEN [es |-> <<>>, w |-> w1] ELSE WalkList(e1.ch, e1.ct, at, w1, 1)
        e2 == IF IsText(e1) \/ e1.ct \notin Walked THEN e1 ELSE [e1 EXCEPT !.ch = in.es]
        w2 == Note(in.w, "out", at, ct, e2)
    IN IF w1.off THEN [e |-> e0, w |-> w1]
       ELSE IF in.w.off THEN [e |-> e2, w |-> in.w]
       ELSE IF w2.off THEN [e |-> e2, w |-> w2]
       ELSE [e |-> Left(w2, e2), w |-> w2]
WalkList(es, ct, base, w, q) ==
    IF q > Len(es) \/ w.off THEN [es |-> es, w |-> w]
    ELSE LET r == WalkEl(es[q], ct, base, w) IN WalkList([es EXCEPT ![q] = r.e], ct, base, r.w, q + 1)
RECURSIVE WalkAct(_, _, _, _)
WalkAct(ch, base, w, q) ==
    IF q > Len(ch) \/ w.off THEN [ch |-> ch, w |-> w]
    ELSE IF ch[q].k # "art" THEN WalkAct(ch, base, w, q + 1)
    ELSE LET r == WalkList(ch[q].ch, "para", Below(base, "art", ch[q].id), w, 1)
         IN WalkAct([ch EXCEPT ![q].ch = r.es], base, r.w, q + 1)
Walk(act, stop, cuts, mut) == WalkAct(act.ch, ActPos(act), Walk0(stop, cuts, mut), 1)

(* the tree without annotations, as it is observed *)
RECURSIVE ViewEl(_), ViewChild(_)
ViewEls(es) == [q \in 1..Len(es) |-> ViewEl(es[q])]
ViewEl(e) == IF IsText(e) THEN Plain(e)
             ELSE CASE e.ct = "qb" -> Plain(e)
                    [] e.ct = "ba" -> [Plain(e) EXCEPT !.ch = [in |-> e.ch.in, wu |-> e.ch.wu, ct |-> e.ch.ct, ch |-> ViewEls(e.ch.ch)]]
                    [] e.ct = "sba" -> [Plain(e) EXCEPT !.ch = [in |-> e.ch.in, wu |-> e.ch.wu, ch |-> [q \in 1..Len(e.ch.ch) |-> ViewChild(e.ch.ch[q])]]]
                    [] OTHER -> [Plain(e) EXCEPT !.ch = ViewEls(e.ch)]
ViewChild(c) == CASE c.k = "se" -> [k |-> "se", t |-> c.t, id |-> c.id, title |-> c.title]
                  [] c.k = "sub" -> [k |-> "sub", id |-> c.id, title |-> c.title]
                  [] OTHER -> [k |-> "art", id |-> c.id, title |-> c.title, ch |-> ViewEls(c.ch)]
ViewChildren(ch) == [q \in 1..Len(ch) |-> ViewChild(ch[q])]

-----------------------------------------------------------------------------
(* What holds of every visit *)
RECURSIVE CountEls(_)
CountEls(es) == IF es = <<>> THEN 0
                ELSE (IF IsText(Head(es)) \/ Head(es).ct \notin Walked THEN 1 ELSE 1 + CountEls(Head(es).ch)) + CountEls(Tail(es))
RECURSIVE SumOver(_, _)
SumOver(Op(_), s) == IF s = <<>> THEN 0 ELSE Op(Head(s)) + SumOver(Op, Tail(s))
RECURSIVE Nested(_, _, _)
Nested(ev, q, open) ==
    IF q > Len(ev) THEN TRUE
    ELSE IF ev[q].k = "in" THEN Nested(ev, q + 1, Append(open, ev[q].at))
    ELSE open # <<>> /\ ev[q].at = open[Len(open)] /\ Nested(ev, q + 1, SubSeq(open, 1, Len(open) - 1))
WalkLaws(act, stop, cuts, mut) ==
    LET r == Walk(act, stop, cuts, mut)
        full == Walk(act, 0, {}, FALSE)
    IN /\ Nested(r.w.ev, 1, <<>>)
       /\ r.w.off => Len(r.w.ev) = stop
       /\ ~r.w.off /\ cuts = {} => Len(r.w.ev) = 2 * SumOver(LAMBDA a : CountEls(a.ch), Articles(act))
       /\ ~mut => r.ch = act.ch /\ (r.w.off => r.w.ev = SubSeq(full.w.ev, 1, stop))
       /\ \A q \in 1..Len(act.ch) : act.ch[q].k # "art" => r.ch[q] = act.ch[q]
=============================================================================
