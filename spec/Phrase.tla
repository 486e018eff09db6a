------------------------------- MODULE Phrase -------------------------------
(***************************************************************************)
(* Operative phrases.  A sentence that amends, repeals or puts into force   *)
(* has a fixed wording around the references it names; the wording is given *)
(* by atoms of kind "kw", whose role o says what they do.                   *)
(*                                                                          *)
(*   block amendment        the A. 5. § (2) bekezdése helyébe ... lép:       *)
(*   structural amendment   the same of chapters, subtitles, articles        *)
(*   text amendment         in ... the text „x” is replaced by „y”           *)
(*   repeal                 of an act, of parts of it, or of texts in it     *)
(*   enforcement date       of this act, or of parts of it                   *)
(*                                                                          *)
(* A sentence with any other wording only cites.                            *)
(***************************************************************************)
EXTENDS Cite
(* references that directly follow each other are read as one where the levels go on *)
Follows(t, u) == \/ t = "art" /\ u \in {"para", "ap", "np"}
                 \/ t = "para" /\ u \in {"ap", "np"}
                 \/ t \in {"ap", "np"} /\ u \in {"asp", "nsp"}
RECURSIVE MergedFrom(_, _)
MergedFrom(as, i) ==
    IF i > Len(as) THEN as
    ELSE IF /\ i > 1 /\ as[i].k = "ref" /\ as[i - 1].k = "ref" /\ as[i].p = " "
            /\ Follows(as[i - 1].lv[Len(as[i - 1].lv)].t, as[i].lv[1].t)
         THEN MergedFrom(SubSeq(as, 1, i - 2) \o <<[as[i - 1] EXCEPT !.lv = @ \o as[i].lv]>> \o SubSeq(as, i + 1, Len(as)), i)
         ELSE MergedFrom(as, i + 1)
Merged(as) == MergedFrom(as, 2)

-----------------------------------------------------------------------------
(* What stands at a place of the sentence.  x is everything that is known    *)
(* about it: [as, known, late, st (where its atoms start)].                  *)
At(x, i) ==
    IF i > Len(x.as) THEN "end"
    ELSE LET a == x.as[i]
         IN IF Mentions(x.as, i, x.known) THEN (IF Wholly(x.as, i, x.known) THEN "ACT" ELSE "PART")
            ELSE IF a.k = "kw" THEN a.o
            ELSE IF a.k = "w" /\ a.s = "." THEN "dot"
            ELSE IF a.k = "w" /\ a.s = ":" THEN "colon"
            ELSE a.k
Are(x, i, tags) == \A q \in 1..Len(tags) : At(x, i + q - 1) = tags[q]
Ends(x, i, tags) == Are(x, i, tags) /\ i + Len(tags) - 1 = Len(x.as)
Opt(x, i, tag) == IF At(x, i) = tag THEN i + 1 ELSE i
Types(x, i) == IF At(x, i) = "ref" THEN [q \in 1..Len(x.as[i].lv) |-> x.as[i].lv[q].t] ELSE <<>>
SingleArticle(x, i) == Types(x, i) = <<"art">> /\ Len(x.as[i].lv[1].ps) = 1
Point(t) == t \in {"ap", "np"}
SubPoint(t) == t \in {"asp", "nsp"}
TypesIn(x, i, heads, Fits(_)) == LET t == Types(x, i) IN t # <<>> /\ SubSeq(t, 1, Len(t) - 1) \in heads /\ Fits(t[Len(t)])
ArtPara == {<<"art">>, <<"art", "para">>}

(* the act a sentence is about: the first one mentioned, except where only   *)
(* its entry into force or its amendment is spoken of                        *)
RECURSIVE ActFrom(_, _)
ActFrom(x, i) == IF i > Len(x.as) THEN 0
                 ELSE IF At(x, i) \in {"ACT", "PART"} /\ At(x, i + 1) # "notact" THEN (IF At(x, i) = "ACT" THEN i ELSE 0)
                 ELSE ActFrom(x, i + 1)
(* the article that begins a sentence; 0 if none does *)
Opening(x) == LET t == Text(x.as) IN IF \E w \in {"A ", "Az ", "a ", "az "} : StartsWith(t, w) THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Marks *)
ActAcc(x, m) == FeedAct(Acc0, x.as, m, x.known, x.late, x.st)
RefAcc(acc, x, i) == FeedRef(acc, x.as[i].lv, x.st[i])
RECURSIVE RefsAcc(_, _, _, _)
RefsAcc(acc, x, is, q) == IF q > Len(is) THEN acc ELSE RefsAcc(RefAcc(acc, x, is[q]), x, is, q + 1)
(* several references read as one *)
JoinAcc(acc, x, is) ==
    LET l(q) == Laid(x.as[is[q]].lv, 1, x.st[is[q]], "")
        one == l(1) last == l(Len(is))
        (* a second list of articles goes on where the first one ended *)
        two == IF Len(is) = 1 THEN <<>>
               ELSE IF x.as[is[1]].lv[1].t = "art" /\ x.as[is[2]].lv[1].t = "art" THEN [last.ev EXCEPT ![1].again = TRUE] ELSE last.ev
    IN Rec([FeedParts(acc, one.ev \o two, 1) EXCEPT !.en = last.end])
MarksOf(acc) == IF acc.ok THEN Ok(acc.m) ELSE Err

-----------------------------------------------------------------------------
(* Structural positions: [act, book, parent, el, to], the first three as     *)
(* sequences of at most one                                                  *)
Tagged(k, v) == Ok(k :> v)
NumText(r) == IF IsOk(r) THEN Ok(NumStr(r.v)) ELSE Err
HunNum(s) == LET n == FromHun(s) IN IF IsOk(n) THEN Ok(ToString(n.v)) ELSE Err
SubPart(s, e) == LET a == ParseNum(s) b == ParseNum(e)
                 IN IF ~IsOk(a) \/ (e # "" /\ ~IsOk(b)) THEN Err
                    ELSE IF e = "" THEN Tagged("SubtitleId", NumStr(a.v))
                    ELSE Tagged("SubtitleRange", IF a.v = b.v THEN NumStr(a.v) ELSE [start |-> NumStr(a.v), end |-> NumStr(b.v)])
Wrap(k, r) == IF IsOk(r) THEN Tagged(k, r.v) ELSE Err
ElementOf(a) == CASE a.t = "chapter" -> Wrap("Chapter", NumText(ParseRomanNum(a.id)))
                  [] a.t = "title" -> Wrap("Title", NumText(ParseRomanNum(a.id)))
                  [] a.t = "part" -> Wrap("Part", HunNum(a.id))
                  [] a.t = "sub" -> SubPart(a.id, a.e)
                  [] OTHER -> Tagged("SubtitleTitle", a.id)
SubsOf(a, i) == SubPart(a.ps[i].s, a.ps[i].e)
BookOf(a) == IF a.bk = "" THEN Ok(<<>>) ELSE LET n == HunNum(a.bk) IN IF IsOk(n) THEN Ok(<<n.v>>) ELSE Err
(* only a title can be no parent *)
ParentAt(x, is) == IF is = <<>> THEN Ok(<<>>)
                   ELSE LET a == x.as[is[1]] e == ElementOf(a) IN IF a.to # "" \/ ~IsOk(e) THEN Err ELSE Ok(<<e.v>>)
SPos(act, book, parent, el, to) ==
    IF ~IsOk(act) \/ ~IsOk(book) \/ ~IsOk(parent) \/ ~IsOk(el) THEN Err
    ELSE Ok((IF act.v = <<>> THEN CNothing ELSE "act" :> CAct(act.v)) @@ (IF book.v = <<>> THEN CNothing ELSE "book" :> book.v[1])
            @@ (IF parent.v = <<>> THEN CNothing ELSE "parent" :> parent.v[1]) @@ ("structural_element" :> el.v)
            @@ (IF to THEN "title_only" :> TRUE ELSE CNothing))
Whole(act, a) == SPos(act, BookOf(a), Ok(<<>>), ElementOf(a), a.to # "")
Below(act, x, par, a) == SPos(act, BookOf(a), ParentAt(x, par), ElementOf(a), a.to # "")
(* the article a reference begins with *)
ArticleText(x, i) == LET p == PartKeys("art", x.as[i].lv[1].ps[1]) IN IF IsOk(p) THEN Ok(KStr("art", p.v.s)) ELSE Err
ActAt(x, m) == IF x.as[m].k = "act" THEN ActOf(x.as[m]) ELSE Ok(x.late[NameAt(x.as, m, x.known)])
NoAct == Ok(<<>>)

(* before or after an article: index after it, 0 if nothing of the kind *)
RelativeEnd(x, i) == LET j == Opt(x, i, "az") IN IF SingleArticle(x, j) /\ At(x, j + 1) \in {"before", "after"} THEN j + 2 ELSE 0
RelativeArt(x, i) == Opt(x, i, "az")
RelativeEl(x, i) == LET j == RelativeArt(x, i) IN Wrap(IF At(x, j + 1) = "before" THEN "SubtitleBeforeArticle" ELSE "SubtitleAfterArticle", ArticleText(x, j))

-----------------------------------------------------------------------------
(* Block amendments *)
(* the references of an insertion at i: [is, to], is = <<>> if there are none *)
NoIns == [is |-> <<>>, to |-> 0]
Insertion(x, i) ==
    LET j == Opt(x, i, "az")
        direct == At(x, i) = "ins"
        named == At(x, j) = "ref" /\ At(x, j + 1) = "ins"
        general == At(x, i) \in {"thisart", "thispara"} /\ At(x, i + 1) = "ins"
        r == i + 1
    IN IF direct THEN
           IF Types(x, r) = <<"art", "para">> THEN [is |-> <<r>>, to |-> r + 1]
           ELSE IF Types(x, r) = <<"art">> THEN
                (IF At(x, r + 1) = "sep" /\ Types(x, r + 2) = <<"art">> THEN [is |-> <<r, r + 2>>, to |-> r + 3] ELSE [is |-> <<r>>, to |-> r + 1])
           ELSE IF Len(Types(x, r)) = 1 /\ (Types(x, r)[1] = "para" \/ Point(Types(x, r)[1])) THEN [is |-> <<r>>, to |-> r + 1]
           ELSE NoIns
       ELSE IF general THEN
           IF Len(Types(x, i + 2)) = 1 /\ (Point(Types(x, i + 2)[1]) \/ (At(x, i) = "thisart" /\ Types(x, i + 2)[1] = "para")) THEN [is |-> <<i + 2>>, to |-> i + 3] ELSE NoIns
       ELSE IF named THEN
           LET a == Types(x, j) b == Types(x, j + 2)
           IN IF \/ a = <<"art">> /\ b = <<"para">>
                 \/ a \in ArtPara /\ Len(b) = 1 /\ Point(b[1])
                 \/ TypesIn(x, j, ArtPara, Point) /\ Len(b) = 1 /\ SubPoint(b[1])
              THEN [is |-> <<j, j + 2>>, to |-> j + 3] ELSE NoIns
       ELSE NoIns
InsertionEnds(x, ins) == ins.is # <<>> /\ Ends(x, ins.to, <<"insend", "colon">>)

(* [ok, par, am, ins] of a sentence about the act at m *)
BlockForm(x, m) ==
    LET par == IF At(x, m + 1) = "str" THEN <<m + 1>> ELSE <<>>
        n == m + 1 + Len(par)
        only == Insertion(x, n)
        i == Opt(x, n + 2, "link")
        j == IF At(x, Opt(x, i, "az")) = "ACT" THEN Opt(x, i, "az") + 1 ELSE i
        k == Opt(x, j, "str")
        both == Insertion(x, k)
    IN IF At(x, n) = "ref" /\ Ends(x, n + 1, <<"amend", "colon">>) THEN [ok |-> TRUE, par |-> par, am |-> <<n>>, ins |-> <<>>]
       ELSE IF InsertionEnds(x, only) THEN [ok |-> TRUE, par |-> par, am |-> <<>>, ins |-> only.is]
       ELSE IF Are(x, n, <<"ref", "amend">>) /\ InsertionEnds(x, both) THEN [ok |-> TRUE, par |-> par, am |-> <<n>>, ins |-> both.is]
       ELSE [ok |-> FALSE]
ActOnly(r) == LastLevel(r) = 1
Least(rs) == CHOOSE r \in rs : \A s \in rs : RefCmp(r, s) <= 0
Most(rs) == CHOOSE r \in rs : \A s \in rs : RefCmp(r, s) >= 0
(* the position of a block amendment spans everything it names *)
BlockPhrase(x, m, f) ==
    LET a1 == RefsAcc(ActAcc(x, m), x, f.am, 1)
        acc == IF f.ins = <<>> THEN a1 ELSE JoinAcc(a1, x, f.ins)
        rs == {acc.m[q].r : q \in 1..Len(acc.m)} \ {r \in {acc.m[q].r : q \in 1..Len(acc.m)} : ActOnly(r)}
        span == MakeRange(Least({FirstIn(r) : r \in rs}), Most({LastIn(r) : r \in rs}))
        pure == f.am = <<>>
        structural == LastLevel(span.v) = 2
        pos == SPos(Ok(span.v[1][1].s), Ok(<<>>), ParentAt(x, f.par), Tagged("Article", CRange(span.v[2])), FALSE)
    IN IF ~acc.ok THEN [k |-> "ba", marks |-> Err, sp |-> Err]
       ELSE [k |-> "ba", marks |-> MarksOf(acc), span |-> span,
             sp |-> IF ~IsOk(span) THEN Err
                    ELSE IF ~structural THEN Ok([BlockAmendment |-> [position |-> CRef(span.v), pure_insertion |-> pure]])
                    ELSE IF IsOk(pos) THEN Ok([StructuralBlockAmendment |-> [position |-> pos.v, pure_insertion |-> pure]]) ELSE Err]

(* a subtitle with or without the article after it: [to, art, title, id], to = 0 if there is none *)
SubtitleAt(x, i) ==
    LET none == [to |-> 0, art |-> <<>>, title |-> <<>>, id |-> <<>>]
        s == At(x, i) = "str" /\ x.as[i].bk = "" /\ x.as[i].t \in {"sub", "subt"} /\ x.as[i].e = "" /\ ~StartsWith(x.as[i].suf, "című")
        then == IF At(x, i + 1) = "and" /\ SingleArticle(x, i + 2) THEN [to |-> i + 3, art |-> <<i + 2>>] ELSE [to |-> i + 1, art |-> <<>>]
    IN IF SingleArticle(x, i) /\ Are(x, i + 1, <<"andthe", "subtitle">>) THEN [none EXCEPT !.to = i + 3, !.art = <<i>>]
       ELSE IF At(x, i) = "subtitle" THEN [none EXCEPT !.to = then.to, !.art = then.art]
       ELSE IF s THEN [none EXCEPT !.to = then.to, !.art = then.art, !.title = IF x.as[i].t = "subt" THEN <<x.as[i].id>> ELSE <<>>,
                                   !.id = IF x.as[i].t = "sub" THEN <<x.as[i].id>> ELSE <<>>]
       ELSE none
SubtitleForm(x, m) ==
    LET par == IF At(x, m + 1) = "str" THEN <<m + 1>> ELSE <<>>
        n == m + 1 + Len(par)
        rel == RelativeEnd(x, n)
        i == IF rel = 0 THEN n ELSE rel
        s == SubtitleAt(x, i)
        t == IF At(x, i) = "ins" THEN SubtitleAt(x, i + 1) ELSE [to |-> 0]
        f == [ok |-> TRUE, par |-> par, rel |-> IF rel = 0 THEN <<>> ELSE <<n>>]
    IN IF s.to # 0 /\ \E w \in {"amend", "amendsub", "amendany"} : Ends(x, s.to, <<w, "colon">>) THEN f @@ [s |-> s, ins |-> FALSE]
       ELSE IF t.to # 0 /\ Ends(x, t.to, <<"insend", "colon">>) THEN f @@ [s |-> t, ins |-> TRUE]
       ELSE [ok |-> FALSE]
SubtitlePhrase(x, m, f) ==
    LET a1 == ActAcc(x, m)
        a2 == IF f.rel = <<>> THEN a1 ELSE RefAcc(a1, x, RelativeArt(x, f.rel[1]))
        acc == RefsAcc(a2, x, f.s.art, 1)
        el == IF f.s.art # <<>> THEN Wrap("SubtitleBeforeArticleInclusive", ArticleText(x, f.s.art[1]))
              ELSE IF f.rel # <<>> THEN RelativeEl(x, f.rel[1])
              ELSE IF f.s.title # <<>> THEN Tagged("SubtitleTitle", f.s.title[1])
              ELSE IF f.s.id # <<>> THEN SubPart(f.s.id[1], "")
              ELSE IF f.ins THEN Ok("SubtitleUnknown") ELSE Err
        pos == SPos(ActAt(x, m), Ok(<<>>), ParentAt(x, f.par), el, FALSE)
    IN [k |-> "sba", marks |-> MarksOf(acc), sp |-> IF IsOk(pos) THEN Ok([StructuralBlockAmendment |-> [position |-> pos.v, pure_insertion |-> f.ins]]) ELSE Err]

StructuralForm(x, m) ==
    LET rel == RelativeEnd(x, m + 1)
        n == IF rel = 0 THEN m + 1 ELSE rel
        amended(i) == \E w \in {"amend", "amendstr", "amendany"} : Ends(x, i, <<w, "colon">>)
        b == Opt(x, n, "book")
        f == [ok |-> TRUE, par |-> <<>>, book |-> <<>>, el |-> n, ins |-> FALSE]
    IN IF Are(x, n, <<"str", "str">>) /\ amended(n + 2) THEN [f EXCEPT !.par = <<n>>, !.el = n + 1]
       ELSE IF At(x, n) = "str" /\ amended(n + 1) THEN f
       ELSE IF Are(x, n, <<"str", "ins", "str">>) /\ Ends(x, n + 3, <<"insend", "colon">>) THEN [f EXCEPT !.par = <<n>>, !.el = n + 2, !.ins = TRUE]
       ELSE IF Are(x, b, <<"ins", "str">>) /\ Ends(x, b + 2, <<"insend", "colon">>) THEN [f EXCEPT !.book = IF b = n THEN <<>> ELSE <<n>>, !.el = b + 1, !.ins = TRUE]
       ELSE [ok |-> FALSE]
StructuralPhrase(x, m, f) ==
    LET a == x.as[f.el]
        own == IF f.book = <<>> THEN BookOf(a) ELSE LET n == HunNum(x.as[f.book[1]].id) IN IF IsOk(n) THEN Ok(<<n.v>>) ELSE Err
        pos == SPos(ActAt(x, m), own, ParentAt(x, f.par), ElementOf(a), a.to # "")
    IN [k |-> "sba", marks |-> MarksOf(ActAcc(x, m)), sp |-> IF IsOk(pos) THEN Ok([StructuralBlockAmendment |-> [position |-> pos.v, pure_insertion |-> f.ins]]) ELSE Err]

-----------------------------------------------------------------------------
(* What text amendments and repeals name: [k, i, to, ...] one after another  *)
SubtitleJunk(x, i) == At(x, i) = "subtitle" \/ (At(x, i) = "str" /\ x.as[i].bk = "" /\ (x.as[i].t \in {"subt", "raw"} \/ (x.as[i].t = "sub")))
Target(x, i) ==
    LET rel(j) == LET e == RelativeEnd(x, j) IN IF e # 0 /\ SubtitleJunk(x, e) THEN e + 1 ELSE 0
    IN IF SingleArticle(x, i) /\ At(x, i + 1) = "arttitle" THEN [k |-> "at", i |-> i, par |-> <<>>, to |-> i + 2]
       ELSE IF At(x, i) = "str" /\ rel(i + 1) # 0 THEN [k |-> "rel", i |-> i + 1, par |-> <<i>>, to |-> rel(i + 1)]
       ELSE IF Are(x, i, <<"str", "str">>) THEN [k |-> "str", i |-> i + 1, par |-> <<i>>, to |-> i + 2]
       ELSE IF rel(i) # 0 THEN [k |-> "rel", i |-> i, par |-> <<>>, to |-> rel(i)]
       ELSE IF At(x, i) = "str" THEN [k |-> "str", i |-> i, par |-> <<>>, to |-> i + 1]
       ELSE IF At(x, i) = "subs" THEN [k |-> "subs", i |-> i, par |-> <<>>, to |-> i + 1]
       ELSE IF At(x, i) = "ref" THEN (IF At(x, i + 1) \in {"intro", "wrapup"} THEN [k |-> At(x, i + 1), i |-> i, par |-> <<>>, to |-> i + 2]
                                      ELSE [k |-> "sae", i |-> i, par |-> <<>>, to |-> i + 1])
       ELSE IF At(x, i) = "att" THEN [k |-> "att", i |-> i, par |-> <<>>, to |-> i + 1]
       ELSE [k |-> "none", to |-> 0]
RECURSIVE Targets(_, _)
Targets(x, i) == LET t == Target(x, i) IN IF t.to = 0 THEN <<>> ELSE <<t>> \o Targets(x, Opt(x, t.to, "sep"))
TargetsEnd(x, i, ts) == IF ts = <<>> THEN i ELSE Opt(x, ts[Len(ts)].to, "sep")
Marked(t) == t.k \in {"at", "rel", "sae", "intro", "wrapup"}
RECURSIVE TargetMarks(_, _, _, _)
TargetMarks(acc, x, ts, q) ==
    IF q > Len(ts) THEN acc
    ELSE TargetMarks(IF ~Marked(ts[q]) THEN acc ELSE RefAcc(acc, x, IF ts[q].k = "rel" THEN RelativeArt(x, ts[q].i) ELSE ts[q].i), x, ts, q + 1)
(* what they are, in order; a list names each of its members *)
RECURSIVE TargetValues(_, _, _, _, _)
TargetValues(acc, x, m, ts, q) ==
    IF q > Len(ts) THEN <<>>
    ELSE LET t == ts[q]
             got == t.k \in {"at", "sae", "intro", "wrapup"}
             next == IF got THEN RefAcc(acc, x, t.i) ELSE acc
             new == SubSeq(next.m, Len(acc.m) + 1, Len(next.m))
             refs == [j \in 1..Len(new) |-> CRef(new[j].r)]
             sound == IF next.ok THEN <<>> ELSE <<[k |-> "all", v |-> Err]>>
             vals == CASE t.k = "at" -> [j \in 1..Len(refs) |-> [k |-> "at", v |-> Ok(refs[j])]]
                       [] t.k = "sae" -> [j \in 1..Len(refs) |-> [k |-> "all", v |-> Ok(refs[j])]]
                       [] t.k = "intro" -> [j \in 1..Len(refs) |-> [k |-> "IntroOnly", v |-> Ok(refs[j])]]
                       [] t.k = "wrapup" -> [j \in 1..Len(refs) |-> [k |-> "WrapUpOnly", v |-> Ok(refs[j])]]
                       [] t.k = "str" -> <<[k |-> "str", v |-> Below(ActAt(x, m), x, t.par, x.as[t.i])]>>
                       [] t.k = "rel" -> <<[k |-> "str", v |-> SPos(ActAt(x, m), Ok(<<>>), ParentAt(x, t.par), RelativeEl(x, t.i), FALSE)]>>
                       [] t.k = "subs" -> [j \in 1..Len(x.as[t.i].ps) |-> [k |-> "str", v |-> SPos(ActAt(x, m), Ok(<<>>), Ok(<<>>), SubsOf(x.as[t.i], j), FALSE)]]
                       [] OTHER -> <<>>
         IN vals \o sound \o TargetValues(next, x, m, ts, q + 1)
TargetOf(t) == CASE t.k = "at" -> [ArticleTitle |-> t.v.v]
                 [] t.k = "str" -> [Structural |-> t.v.v]
                 [] t.k = "all" -> [SAE |-> [reference |-> t.v.v]]
                 [] OTHER -> [SAE |-> [reference |-> t.v.v, amended_part |-> t.k]]
(* every pair of something named and a text *)
RECURSIVE Pairs(_, _, _)
Pairs(vs, ps, q) == IF q > Len(vs) THEN <<>>
                    ELSE [j \in 1..Len(ps) |-> [reference |-> TargetOf(vs[q]), from |-> ps[j][1], to |-> ps[j][2]]] \o Pairs(vs, ps, q + 1)
AllOk(vs) == \A q \in 1..Len(vs) : IsOk(vs[q].v)

(* the replacements of a text amendment: [ps, to] *)
RECURSIVE Replacements(_, _)
Replacements(x, i) ==
    LET a == Opt(x, i, "az")
        b == Opt(x, a + 2, "az")
        fits == Are(x, a, <<"q", "instead">>) /\ At(x, b) = "q"
        closed == At(x, b + 1) = "text"
        open == At(x, b + 1) = "sep" \/ (At(x, b + 1) = "lep" /\ StartsWith(x.as[b + 1].s, ","))
        e == IF closed THEN b + 2 ELSE b + 1
        more == IF At(x, e) = "sep" THEN Replacements(x, e + 1) ELSE [ps |-> <<>>, to |-> 0]
    IN IF ~fits \/ ~(closed \/ open) THEN [ps |-> <<>>, to |-> 0]
       ELSE [ps |-> <<<<x.as[a].s, x.as[b].s>>>> \o more.ps, to |-> IF more.ps = <<>> THEN e ELSE more.to]
TextForm(x, m) ==
    LET ts == Targets(x, m + 1)
        r == Replacements(x, TargetsEnd(x, m + 1, ts))
    IN IF ts # <<>> /\ r.ps # <<>> /\ Ends(x, r.to, <<"lep", "dot">>) THEN [ok |-> TRUE, ts |-> ts, ps |-> r.ps] ELSE [ok |-> FALSE]
TextPhrase(x, m, f) ==
    LET acc == TargetMarks(ActAcc(x, m), x, f.ts, 1)
        vs == TargetValues(ActAcc(x, m), x, m, f.ts, 1)
    IN [k |-> "ta", marks |-> MarksOf(acc), sp |-> IF acc.ok /\ AllOk(vs) THEN Ok([TextAmendment |-> Pairs(vs, f.ps, 1)]) ELSE Err]

(* repeals: [ts, texts] *)
RECURSIVE Dropped(_, _)
Dropped(x, i) == LET a == Opt(x, i, "az") IN IF At(x, a) = "q" THEN <<a>> \o Dropped(x, Opt(x, Opt(x, a + 1, "text"), "sep")) ELSE <<>>
RepealForm(x, m) ==
    LET ts == Targets(x, m + 1)
        i == TargetsEnd(x, m + 1, ts)
        qs == Dropped(x, i)
        e == IF qs = <<>> THEN i ELSE Opt(x, Opt(x, qs[Len(qs)] + 1, "text"), "sep")
    IN IF Ends(x, e, <<"dot">>) THEN [ok |-> TRUE, ts |-> ts, qs |-> qs] ELSE [ok |-> FALSE]
RepealPhrase(x, m, f) ==
    LET acc == TargetMarks(ActAcc(x, m), x, f.ts, 1)
        vs == TargetValues(ActAcc(x, m), x, m, f.ts, 1)
        act == ActAt(x, m)
        texts == [j \in 1..Len(f.qs) |-> <<x.as[f.qs[j]].s, "">>]
        (* whole elements are repealed, not parts of their texts *)
        some == \A q \in 1..Len(vs) : vs[q].k \in {"all", "str"}
    IN [k |-> "rep", marks |-> MarksOf(acc),
        sp |-> IF ~acc.ok \/ ~AllOk(vs) THEN Err
               ELSE IF texts # <<>> THEN Ok([TextAmendment |-> Pairs(vs, texts, 1)])
               ELSE IF ~some THEN Err
               ELSE IF f.ts = <<>> THEN Ok([Repeal |-> <<[Reference |-> "act" :> CAct(act.v)]>>])
               ELSE Ok([Repeal |-> [q \in 1..Len(vs) |-> IF vs[q].k = "str" THEN [StructuralReference |-> vs[q].v.v] ELSE [Reference |-> vs[q].v.v]]])]

-----------------------------------------------------------------------------
(* Enforcement dates *)
RECURSIVE ZeroTo(_, _)
ZeroTo(s, w) == IF Len(s) >= w THEN s ELSE ZeroTo("0" \o s, w)
Figures(n, w) == ZeroTo(ToString(n), w)
DayOf(a) == LET y == ParseSigned(a.y, -262144, 262143) m == MonthOf(a.m) d == ParseUnsigned(a.n, 999999)
            IN IF ~IsOk(y) \/ ~IsOk(m) \/ ~IsOk(d) THEN Err
               ELSE IF d.v < 1 \/ d.v > DaysIn(y.v, m.v) THEN Err
               ELSE Ok(Figures(y.v, 4) \o "-" \o Figures(m.v, 2) \o "-" \o Figures(d.v, 2))
Ordinal(s, max) == IF EndsWith(s, ".") THEN ParseUnsigned(Take(s, Len(s) - 1), max) ELSE FromHun(s)
WhenOf(a) == CASE a.t = "date" -> Wrap("Date", DayOf(a))
               [] a.t = "days" -> IF a.n = "" THEN Tagged("DaysAfterPublication", 1) ELSE Wrap("DaysAfterPublication", Ordinal(a.n, 65535))
               [] OTHER -> LET d == Ordinal(a.n, 65535) m == FromHun(a.m)
                           IN IF ~IsOk(d) \/ (a.m # "" /\ ~IsOk(m)) THEN Err
                              ELSE Tagged("DayInMonthAfterPublication", (IF a.m = "" THEN CNothing ELSE "month" :> m.v) @@ [day |-> d.v])
Enforced == {"ref", "str", "subs", "att"}
RECURSIVE EnforcedFrom(_, _)
EnforcedFrom(x, i) == IF At(x, i) \notin Enforced THEN <<>> ELSE <<i>> \o (IF At(x, i + 1) = "sep" /\ At(x, Opt(x, i + 2, "az")) \in Enforced THEN EnforcedFrom(x, Opt(x, i + 2, "az")) ELSE <<>>)
ForceForm(x) ==
    LET start == At(x, 1) = "thisact" \/ (At(x, 1) = "az" /\ x.as[1].s \in {"A", "Az"})
        d == Opt(x, 2, "dash")
        ex == At(x, d) = "az" /\ x.as[d].s = "a" /\ Are(x, d + 1, <<"ref", "except">>)
        i == IF ex THEN Opt(x, d + 3, "dash") ELSE 2
        is == EnforcedFrom(x, i)
        j == Opt(x, IF is = <<>> THEN i ELSE is[Len(is)] + 1, "az")
        rep == Are(x, j + 2, <<"andact", "day", "expires">>) /\ x.as[j + 3].t = "date"
    IN IF start /\ Are(x, j, <<"day", "inforce">>) /\ Ends(x, IF rep THEN j + 5 ELSE j + 2, <<"dot">>)
       THEN [ok |-> TRUE, is |-> is, day |-> j, rep |-> IF rep THEN <<j + 3>> ELSE <<>>] ELSE [ok |-> FALSE]
RECURSIVE Structurals(_, _, _)
Structurals(x, is, q) ==
    IF q > Len(is) THEN <<>>
    ELSE LET a == x.as[is[q]]
         IN (CASE a.k = "str" -> <<Whole(NoAct, a)>>
               [] a.k = "subs" -> [j \in 1..Len(a.ps) |-> SPos(NoAct, Ok(<<>>), Ok(<<>>), SubsOf(a, j), FALSE)]
               [] OTHER -> <<>>) \o Structurals(x, is, q + 1)
ForcePhrase(x, f) ==
    LET acc == RefsAcc(Acc0, x, SelectSeq(f.is, LAMBDA i : x.as[i].k = "ref"), 1)
        ss == Structurals(x, f.is, 1)
        when == WhenOf(x.as[f.day])
        gone == IF f.rep = <<>> THEN Ok("") ELSE DayOf(x.as[f.rep[1]])
        bad == ~acc.ok \/ ~IsOk(when) \/ ~IsOk(gone) \/ \E q \in 1..Len(ss) : ~IsOk(ss[q])
    IN [k |-> "ed", marks |-> MarksOf(acc),
        sp |-> IF bad THEN Err
               ELSE Ok([EnforcementDate |->
                        (IF acc.m = <<>> THEN CNothing ELSE "positions" :> [q \in 1..Len(acc.m) |-> CRef(acc.m[q].r)])
                        @@ (IF ss = <<>> THEN CNothing ELSE "structural_positions" :> [q \in 1..Len(ss) |-> ss[q].v])
                        @@ (IF f.is = <<>> THEN "is_default" :> TRUE ELSE CNothing)
                        @@ ("date" :> when.v)
                        @@ (IF f.rep = <<>> THEN CNothing ELSE "inline_repeal" :> gone.v)])]

-----------------------------------------------------------------------------
(* The phrase a sentence is, the first that fits *)
PhraseOf(as, known, late) ==
    LET x == [as |-> as, known |-> known, late |-> late, st |-> Starts(as)]
        o == Opening(x)
        m == IF o = 0 THEN 0 ELSE ActFrom(x, 1)
        r == IF At(x, 1) = "gone" /\ Len(as) > 1 /\ \E w \in {"a ", "az "} : StartsWith(AtomText(as[2]) \o " ", w) THEN ActFrom(x, 2) ELSE 0
        bf == IF m = 0 THEN [ok |-> FALSE] ELSE BlockForm(x, m)
        sf == IF m = 0 THEN [ok |-> FALSE] ELSE SubtitleForm(x, m)
        tf == IF m = 0 THEN [ok |-> FALSE] ELSE StructuralForm(x, m)
        xf == IF m = 0 THEN [ok |-> FALSE] ELSE TextForm(x, m)
        ef == ForceForm(x)
        rf == IF r = 0 THEN [ok |-> FALSE] ELSE RepealForm(x, r)
    IN IF bf.ok THEN BlockPhrase(x, m, bf)
       ELSE IF sf.ok THEN SubtitlePhrase(x, m, sf)
       ELSE IF tf.ok THEN StructuralPhrase(x, m, tf)
       ELSE IF xf.ok THEN TextPhrase(x, m, xf)
       ELSE IF ef.ok THEN ForcePhrase(x, ef)
       ELSE IF rf.ok THEN RepealPhrase(x, r, rf)
       ELSE [k |-> "none"]
=============================================================================
