------------------------------- MODULE Amend --------------------------------
(***************************************************************************)
(* Block amendments: the quoted block of an amending paragraph becomes the  *)
(* elements it spells out, at the place the amendment names.  Either the    *)
(* whole conversion succeeds, or the paragraph stays as it was.             *)
(***************************************************************************)
EXTENDS StructEval, Ref

(* what is amended: [t |-> "ref", v |-> compact reference], or a structural  *)
(* position [t |-> "part" / "title" / "chapter" / "subid" / "subtitle" /     *)
(* "subafter" / "subbefore" / "subincl" / "subunknown" / "subrange" / "art", *)
(* v |-> identifier, only |-> title only], or [t |-> "none"]                 *)
ExtractBA(p, ls, id) ==
    LET r == TLCEval(Extract(p, ls, "ba", FALSE, FALSE, <<id>>)) IN IF IsOk(r) THEN Ok([ct |-> r.v.ct, ch |-> r.v.ch]) ELSE Err
SimpleBA(ref, ls) ==
    LET l == LastLevel(ref)
    IN IF ls = <<>> \/ l < 3 THEN Err
       ELSE LET pt == ref[l][1]
                id == UnKey(pt.t, pt.s)
            IN CASE l = 3 ->
                      IF ref[2] = <<>> THEN Err
                      ELSE LET h == ArtStr(UnKey("art", ref[2][1].s)) \o ". § "
                               ls2 == IF StartsWith(ls[1].t, h) THEN <<CutLeft(ls[1], Len(h))>> \o Tail(ls) ELSE ls
                           IN ExtractBA(P("para"), ls2, id)
                 [] l = 4 -> ExtractBA(IF pt.t = "num" THEN P("np") ELSE P("ap"), ls, id)
                 [] l = 5 -> IF pt.t = "num" THEN ExtractBA(P("nsp"), ls, id) ELSE ExtractBA([k |-> "asp", pf |-> id.p], ls, id)
(* articles in a row, the first of which is known *)
RECURSIVE ArtsGo(_, _, _, _, _, _)
ArtsGo(ls, n, lvl, last, cur, acc) ==
    IF n > Len(ls)
    THEN IF lvl # 0 THEN Err
         ELSE LET a == TLCEval(Article(cur.id, cur.ls, "ba")) IN IF IsOk(a) THEN Ok(Append(acc, a.v)) ELSE Err
    ELSE LET l2 == lvl + QDelta(ls[n].t)
             h == TLCEval(IF lvl > 0 THEN Err ELSE ArtStart(ls[n], last, <<>>, "ba"))
         IN IF l2 < 0 THEN Err
            ELSE IF IsOk(h)
            THEN LET a == TLCEval(Article(cur.id, cur.ls, "ba"))
                 IN IF IsOk(a) THEN ArtsGo(ls, n + 1, l2, <<[id |-> h.v.id, x |-> ls[n].x]>>, [id |-> h.v.id, ls |-> <<h.v.rest>>], Append(acc, a.v))
                    ELSE Err
            ELSE ArtsGo(ls, n + 1, l2, last, [cur EXCEPT !.ls = Append(cur.ls, ls[n])], acc)
ArtsBA(first, ls) ==
    LET h == TLCEval(ArtStart(ls[1], <<>>, <<first>>, "ba"))
        q == QDelta(ls[1].t)
    IN IF ~IsOk(h) \/ q < 0 THEN Err
       ELSE ArtsGo(ls, 2, q, <<[id |-> h.v.id, x |-> ls[1].x]>>, [id |-> h.v.id, ls |-> <<h.v.rest>>], <<>>)
RECURSIVE AddTitle(_, _, _)
AddTitle(c, ls, n) == IF n > Len(ls) THEN c ELSE AddTitle([c EXCEPT !.title = JoinTo(c.title, ls[n].t)], ls, n + 1)
TitleBA(pos, ls) ==
    CASE pos.t \in {"part", "title", "chapter"} ->
           LET h == SeTry(ls[1].t, pos.t)
           IN IF IsOk(h) THEN Ok(<<AddTitle(h.v, ls, 2)>>) ELSE Ok(<<AddTitle(Se(pos.t, ParseNum(pos.v).v), ls, 1)>>)
      [] pos.t \in {"subid", "subtitle", "subafter", "subbefore", "subincl"} ->
           LET h == SubHeader(ls[1], TRUE, "ba") IN IF IsOk(h) THEN Ok(<<AddTitle(h.v, ls, 2)>>) ELSE Err
      [] OTHER -> Err
StructBA(pos, ls) ==
    IF ls = <<>> THEN Err
    ELSE IF pos.t = "art" THEN ArtsBA(UnKey("art", PartOf(2, pos.v).v.s), ls)
    ELSE IF pos.only THEN TitleBA(pos, ls)
    ELSE LET r == TLCEval(ParseBody(ls, "ba")) IN IF IsOk(r) THEN Ok(r.v.ch) ELSE Err

(* the paragraph before and after *)
BlockView(b) == [in |-> b.in, wu |-> b.wu, ls |-> [z \in 1..Len(b.ls) |-> LineView(LineOf(b.ls[z]))]]
ParaBefore(i) == [id |-> "", in |-> i.intro, ct |-> "qb", ch |-> [q \in 1..Len(i.qbs) |-> BlockView(i.qbs[q])], wu |-> i.wu]
Converted(i) ==
    LET b == i.qbs[1]
        ls == LinesOf(b.ls)
    IN IF i.pos.t = "none" \/ Len(i.qbs) # 1 THEN Ok(ParaBefore(i))
       ELSE IF i.pos.t = "ref"
       THEN LET r == TLCEval(SimpleBA(RefParse(i.pos.v).v, ls))
            IN IF IsOk(r) THEN Ok([ParaBefore(i) EXCEPT !.ct = "ba",
                                      !.ch = [in |-> b.in, wu |-> b.wu, ct |-> r.v.ct, ch |-> [q \in 1..Len(r.v.ch) |-> ElView(r.v.ch[q])]]]) ELSE Err
       ELSE LET r == TLCEval(StructBA(i.pos, ls))
            IN IF IsOk(r) THEN Ok([ParaBefore(i) EXCEPT !.ct = "sba",
                                      !.ch = [in |-> b.in, wu |-> b.wu, ch |-> ChildrenView(r.v)]]) ELSE Err
AmendExpected(i) ==
    LET c == TLCEval(Converted(i))
    IN [r |-> "ok", v |-> [done |-> IsOk(c), p |-> IF IsOk(c) THEN c.v ELSE ParaBefore(i)]]
-----------------------------------------------------------------------------
(* laws *)
SimpleLaw(i, ls) ==
    LET ref == RefParse(i.pos.v).v
        r == TLCEval(SimpleBA(ref, ls))
        flat == Norm(Cat([q \in 1..Len(r.v.ch) |-> FlatEl(r.v.ct, r.v.ch[q])], 1))
        all == Norm(Cat(TextsOf(ls), 1))
    IN IsOk(r) =>
         /\ r.v.ct = (CASE LastLevel(ref) = 3 -> "para" [] LastLevel(ref) = 4 -> (IF ref[4][1].t = "num" THEN "np" ELSE "ap")
                        [] OTHER -> IF ref[5][1].t = "num" THEN "nsp" ELSE "asp")
         /\ r.v.ch[1].id = KStr(ref[LastLevel(ref)][1].t, ref[LastLevel(ref)][1].s)
         /\ flat = all \/ (LastLevel(ref) = 3 /\ EndsWith(all, flat))
StructLaw(i, ls) ==
    LET r == TLCEval(StructBA(i.pos, ls))
    IN IsOk(r) => /\ i.pos.t = "art" => r.v[1].k = "art" /\ r.v[1].id = KStr("art", PartOf(2, i.pos.v).v.s) /\ \A q \in 1..Len(r.v) : r.v[q].k = "art"
                  /\ ~(i.pos.only /\ i.pos.t # "art") => Norm(FlatBody([pre |-> "", ch |-> r.v])) = Norm(Cat(TextsOf(ls), 1))
                  /\ i.pos.only /\ i.pos.t # "art" => Len(r.v) = 1
AmendLaws(i) ==
    Len(i.qbs) = 1 =>
      LET ls == LinesOf(i.qbs[1].ls)
      IN CASE i.pos.t = "none" -> TRUE
           [] i.pos.t = "ref" -> SimpleLaw(i, ls)
           [] OTHER -> StructLaw(i, ls)
=============================================================================
