----------------------------- MODULE Structure ------------------------------
(***************************************************************************)
(* From the lines of an act's body to its structure: books, parts, titles,  *)
(* chapters, subtitles, articles, paragraphs, points, subpoints and quoted  *)
(* blocks.                                                                  *)
(*                                                                         *)
(* A line is [t |-> text, x |-> indentation, b |-> bold, j |-> justified];  *)
(* characters are CharW apart, so what is cut off at the left moves the     *)
(* indentation to the right.  Distances are in quarters of a point.         *)
(***************************************************************************)
EXTENDS Ident, Line

CharW == 20
IndentEps == 4
L(t, x, b, j) == [t |-> t, x |-> x, b |-> b, j |-> j]
NoLine == L("", 0, FALSE, FALSE)
IsEmpty(l) == l.t = ""
CutLeft(l, n) == IF n >= Len(l.t) THEN NoLine ELSE L(Drop(l.t, n), l.x + CharW * n, l.b, l.j)
CutLast(l) == IF Len(l.t) <= 1 THEN NoLine ELSE L(Take(l.t, Len(l.t) - 1), l.x, l.b, FALSE)
AtMost(l, x) == l.x < x + IndentEps
TextsOf(ls) == [i \in 1..Len(ls) |-> ls[i].t]
Joined(ls) == JoinAll(TextsOf(ls))

UpperFirst == UpperSet \cup CharSet(AccentUpper)

-----------------------------------------------------------------------------
(* Headers of the elements below an article.  P = [k |-> kind, pf |-> prefix] *)
P(k) == [k |-> k, pf |-> NONE]
(* the text after n characters, of which at least one space must come first *)
RestAfter(l, n) == LET sp == Span(l.t, n + 1, {" "}) IN IF sp = 0 THEN Err ELSE Ok(CutLeft(l, n + sp))
NumHeadLen(t) ==   (* 12 / 12a / 12/a; 0 if it is not there *)
    LET d == Span(t, 1, DigitSet)
    IN IF d = 0 THEN 0
       ELSE IF d + 1 <= Len(t) /\ Chr(t, d + 1) \in LowerSet THEN d + 1
       ELSE IF d + 2 <= Len(t) /\ Chr(t, d + 1) = "/" /\ Chr(t, d + 2) \in LowerSet THEN d + 2
       ELSE d
DigraphSet == {DigraphOf[i] : i \in DOMAIN DigraphOf}
Blacklist(k) == IF k = "para" THEN {"bekezdés"} ELSE {"pont", "alpont"}
HeadId(p, t) ==    (* <<identifier text, length of the header before the spaces>> or Err *)
    CASE p.k = "para" ->
           LET d == IF StartsWith(t, "(") THEN Span(t, 2, DigitSet) ELSE 0
               e == IF d > 0 /\ d + 2 <= Len(t) /\ Chr(t, d + 2) \in LowerSet THEN d + 1 ELSE d
           IN IF d = 0 \/ e + 2 > Len(t) \/ Chr(t, e + 2) # ")" THEN Err ELSE Ok(<<SubSeq(t, 2, e + 1), e + 2>>)
      [] p.k \in {"np", "nsp"} ->
           LET n == NumHeadLen(t)
           IN IF n = 0 \/ n + 1 > Len(t) \/ Chr(t, n + 1) # "." THEN Err ELSE Ok(<<Take(t, n), n + 1>>)
      [] p.k = "ap" ->
           IF Len(t) >= 2 /\ Chr(t, 1) \in LowerSet /\ Chr(t, 2) = ")" THEN Ok(<<Take(t, 1), 2>>)
           ELSE IF Len(t) >= 3 /\ Take(t, 2) \in DigraphSet /\ Chr(t, 3) = ")" THEN Ok(<<Take(t, 2), 3>>) ELSE Err
      [] p.k = "asp" ->
           LET d == Span(t, 1, LowerSet)
           IN IF d \in {1, 2} /\ d + 1 <= Len(t) /\ Chr(t, d + 1) = ")" THEN Ok(<<Take(t, d), d + 1>>) ELSE Err
IdParse(p, s) == CASE p.k = "para" -> ParsePara(s) [] p.k \in {"np", "nsp"} -> ParseNum(s)
                   [] p.k = "ap" -> ParseLetter(s) [] p.k = "asp" -> ParsePre(s)
IdFirst(p, a) == CASE p.k = "para" -> ParaFirst(a) [] p.k \in {"np", "nsp"} -> NumFirst(a)
                   [] p.k = "ap" -> LetterFirst(a) [] p.k = "asp" -> PreFirst(a)
IdNext(p, a, o) == CASE p.k = "para" -> ParaNext(a, o) [] p.k \in {"np", "nsp"} -> NumNext(a, o)
                     [] p.k = "ap" -> LetterNext(a, o) [] p.k = "asp" -> PreNext(a, o)
IdStr(p, a) == CASE p.k = "para" -> ParaStr(a) [] p.k \in {"np", "nsp"} -> NumStr(a)
                 [] p.k = "ap" -> LetterStr(a) [] p.k = "asp" -> PreStr(a)
Header(p, l) ==
    LET h == TLCEval(HeadId(p, l.t))
    IN IF ~IsOk(h) THEN Err
       ELSE LET id == IdParse(p, h.v[1])
                rest == RestAfter(l, h.v[2])
            IN IF ~IsOk(id) \/ ~IsOk(rest) THEN Err
               ELSE IF \E w \in Blacklist(p.k) : StartsWith(rest.v.t, w) THEN Err
               ELSE IF p.k = "asp" /\ id.v.p # p.pf THEN Err
               ELSE Ok([id |-> id.v, rest |-> rest.v])

-----------------------------------------------------------------------------
(* Quoted blocks: „...” after an optional (introduction), with an optional   *)
(* (closing) and the text that follows.                                      *)
QStates == {"start", "startIntro", "intro", "inside", "between", "afterBlocks", "closing", "wrap"}
Q0(expectIntro) == [s |-> IF expectIntro THEN "startIntro" ELSE "start", blocks |-> <<>>, intro |-> "", closing |-> "",
                    wrap |-> "", cur |-> <<>>]
OpensQuote(l) == ~IsEmpty(l) /\ Chr(l.t, 1) \in OpenQ
OpensParen(l) == ~IsEmpty(l) /\ Chr(l.t, 1) \in {"(", "["}
EndsParen(l) == ~IsEmpty(l) /\ Chr(l.t, Len(l.t)) \in {")", "]"}
EndsQuote(l) == ~IsEmpty(l) /\ Chr(l.t, Len(l.t)) \in CloseQ
RECURSIVE QStep(_, _, _)
(* open: is the end of the line inside quotes *)
QStep(q, l, open) ==
    CASE q.s = "start" ->
           IF IsEmpty(l) THEN q
           ELSE IF OpensQuote(l) THEN QStep([q EXCEPT !.s = "inside"], CutLeft(l, 1), open)
           ELSE QStep([q EXCEPT !.s = "wrap"], l, open)
      [] q.s = "startIntro" ->
           IF IsEmpty(l) THEN q
           ELSE IF OpensParen(l) THEN QStep([q EXCEPT !.s = "intro"], CutLeft(l, 1), open)
           ELSE QStep([q EXCEPT !.s = "start"], l, open)
      [] q.s = "intro" ->
           IF ~open /\ EndsParen(l) THEN [q EXCEPT !.intro = JoinTo(q.intro, CutLast(l).t), !.s = "startIntro"]
           ELSE [q EXCEPT !.intro = JoinTo(q.intro, l.t)]
      [] q.s = "inside" ->
           IF ~open /\ EndsQuote(l)
           THEN [q EXCEPT !.blocks = Append(q.blocks, Append(q.cur, CutLast(l))), !.cur = <<>>, !.s = "between"]
           ELSE [q EXCEPT !.cur = Append(q.cur, l)]
      [] q.s = "between" ->
           IF IsEmpty(l) THEN q
           ELSE IF OpensQuote(l) THEN QStep([q EXCEPT !.s = "inside"], CutLeft(l, 1), open)
           ELSE QStep([q EXCEPT !.s = "afterBlocks"], l, open)
      [] q.s = "afterBlocks" ->
           IF IsEmpty(l) THEN q
           ELSE IF OpensParen(l) THEN QStep([q EXCEPT !.s = "closing"], CutLeft(l, 1), open)
           ELSE QStep([q EXCEPT !.s = "wrap"], l, open)
      [] q.s = "closing" ->
           IF ~open /\ EndsParen(l) THEN [q EXCEPT !.closing = JoinTo(q.closing, CutLast(l).t), !.s = "afterBlocks"]
           ELSE [q EXCEPT !.closing = JoinTo(q.closing, l.t)]
      [] q.s = "wrap" -> [q EXCEPT !.wrap = JoinTo(q.wrap, l.t)]
RECURSIVE QRun(_, _, _, _)
QRun(q, ls, n, lvl) ==
    IF n > Len(ls) THEN Ok(q)
    ELSE LET l2 == lvl + QDelta(ls[n].t)
         IN IF l2 < 0 THEN Err ELSE QRun(TLCEval(QStep(q, ls[n], l2 > 0)), ls, n + 1, l2)
Opt(s) == IF s = "" THEN <<>> ELSE <<s>>
QuotedBlocks(prev, ls) ==
    LET expectIntro == EndsWith(prev, ":")
    IN IF ls = <<>> THEN Err
       ELSE IF ~(OpensQuote(ls[1]) \/ (expectIntro /\ OpensParen(ls[1]))) THEN Err
       ELSE LET r == TLCEval(QRun(Q0(expectIntro), ls, 1, 0))
            IN IF ~IsOk(r) THEN Err
               ELSE LET q == r.v
                        nb == Len(q.blocks)
                    IN IF q.s \notin {"between", "afterBlocks", "wrap"} \/ nb = 0 THEN Err
                       ELSE Ok([ct |-> "qb",
                                ch |-> [i \in 1..nb |->
                                          [in |-> IF i = 1 THEN Opt(q.intro) ELSE <<>>,
                                           ls |-> q.blocks[i],
                                           wu |-> IF i = nb THEN Opt(q.closing) ELSE <<>>]],
                                wu |-> Opt(q.wrap), more |-> <<>>])

-----------------------------------------------------------------------------
(* Elements below an article.                                               *)
(* FindOr(S): the least element of S, or 0 *)
Least(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
ElText(p, id, txt) == [id |-> IdStr(p, id), x |-> txt]
ElKids(p, id, intro, ct, ch, wu) == [id |-> IdStr(p, id), in |-> intro, ct |-> ct, ch |-> ch, wu |-> wu]
RECURSIVE ParseEl(_, _, _, _, _), ParseGo(_, _, _, _, _, _, _, _, _), TryKids(_, _, _, _, _), Extract(_, _, _, _, _, _),
          Segments(_, _, _, _, _, _, _), KeepWrap(_, _, _)
(* what remains after the children's own closing text goes to it *)
KeepWrap(wu, more, n) ==
    IF n > Len(more) THEN wu
    ELSE KeepWrap(IF wu = <<>> THEN <<more[n].t>> ELSE <<JoinTo(wu[1], more[n].t)>>, more, n + 1)
(* one element; keep: its closing text is all its own, else what follows is handed to its parent *)
ParseEl(p, id, body, ctx, keep) == ParseGo(p, id, body, ctx, keep, 1, "", 0, "")
ParseGo(p, id, body, ctx, keep, i, intro, lvl, prev) ==
    IF i > Len(body)
    THEN IF lvl # 0 THEN Err
         ELSE LET cut == IF ctx = "ba" /\ ~keep THEN Least({n \in 1..Len(body) : ~body[n].j}) ELSE 0
              IN IF cut = 0 THEN Ok([el |-> ElText(p, id, intro), more |-> <<>>])
                 ELSE Ok([el |-> ElText(p, id, Joined(SubSeq(body, 1, cut))), more |-> SubSeq(body, cut + 1, Len(body))])
    ELSE LET l2 == lvl + QDelta(body[i].t)
         IN IF l2 < 0 THEN Err
            ELSE LET c == TLCEval(IF lvl > 0 THEN Err ELSE TryKids(p, id, prev, SubSeq(body, i, Len(body)), ctx))
                 IN IF IsOk(c)
                    THEN Ok([el |-> ElKids(p, id, intro, c.v.ct, c.v.ch, IF keep THEN KeepWrap(c.v.wu, c.v.more, 1) ELSE c.v.wu),
                             more |-> IF keep THEN <<>> ELSE c.v.more])
                    ELSE ParseGo(p, id, body, ctx, keep, i + 1, JoinTo(intro, body[i].t), l2,
                                 IF IsEmpty(body[i]) THEN prev ELSE body[i].t)
TryKids(p, id, prev, ls, ctx) ==
    CASE p.k = "para" ->
           LET q == TLCEval(QuotedBlocks(prev, ls))
           IN IF IsOk(q) THEN q
              ELSE LET n == TLCEval(Extract(P("np"), ls, ctx, TRUE, TRUE, <<>>))
                   IN IF IsOk(n) THEN n ELSE Extract(P("ap"), ls, ctx, TRUE, TRUE, <<>>)
      [] p.k = "np" -> Extract(P("asp"), ls, ctx, TRUE, TRUE, <<>>)
      [] p.k = "ap" ->
           LET n == TLCEval(Extract(P("nsp"), ls, ctx, TRUE, TRUE, <<>>))
           IN IF IsOk(n) THEN n ELSE Extract([k |-> "asp", pf |-> id], ls, ctx, TRUE, TRUE, <<>>)
      [] OTHER -> Err
(* cut a run of siblings at their headers: <<[id, body], ...>> *)
Segments(p, ls, n, hx, cur, lvl, acc) ==
    IF n > Len(ls) THEN IF lvl = 0 THEN Ok(Append(acc, cur)) ELSE Err
    ELSE LET l2 == lvl + QDelta(ls[n].t)
             h == TLCEval(IF lvl > 0 \/ ~AtMost(ls[n], hx) THEN Err ELSE Header(p, ls[n]))
         IN IF l2 < 0 THEN Err
            ELSE IF IsOk(h) /\ IdNext(p, h.v.id, cur.id)
            THEN Segments(p, ls, n + 1, hx, [id |-> h.v.id, body |-> <<h.v.rest>>], l2, Append(acc, cur))
            ELSE Segments(p, ls, n + 1, hx,
                          IF IsEmpty(ls[n]) THEN cur ELSE [cur EXCEPT !.body = Append(cur.body, ls[n])], l2, acc)
(* siblings starting at the first line; wrap: look for the parent's closing text; count: at least two *)
Extract(p, ls, ctx, wrap, count, expected) ==
    LET h == TLCEval(IF ls = <<>> THEN Err ELSE Header(p, ls[1]))
    IN IF ~IsOk(h) THEN Err
       ELSE IF ~(IF expected = <<>> THEN IdFirst(p, h.v.id) ELSE h.v.id = expected[1]) THEN Err
       ELSE LET l1 == QDelta(h.v.rest.t)
                s == TLCEval(IF l1 < 0 THEN Err
                             ELSE Segments(p, ls, 2, ls[1].x, [id |-> h.v.id, body |-> <<h.v.rest>>], l1, <<>>))
            IN IF ~IsOk(s) THEN Err
               ELSE IF count /\ Len(s.v) < 2 THEN Err
               ELSE LET seg == s.v
                        n == Len(seg)
                        before == TLCEval([q \in 1..(n - 1) |-> ParseEl(p, seg[q].id, seg[q].body, ctx, TRUE)])
                        last == seg[n]
                        cut == IF wrap /\ ctx = "full" THEN Least({q \in 1..Len(last.body) : AtMost(last.body[q], ls[1].x)}) ELSE 0
                        own == IF cut = 0 THEN last.body ELSE SubSeq(last.body, 1, cut - 1)
                        el == TLCEval(ParseEl(p, last.id, own, ctx, ~(wrap /\ ctx = "ba")))
                    IN IF (\E q \in 1..(n - 1) : ~IsOk(before[q])) \/ ~IsOk(el) THEN Err
                       ELSE LET more == el.v.more
                                c2 == Least({q \in 1..Len(more) : ~more[q].j})
                                mine == IF c2 = 0 THEN more ELSE SubSeq(more, 1, c2)
                                wu == IF cut # 0 THEN <<Joined(SubSeq(last.body, cut, Len(last.body)))>>
                                      ELSE IF mine # <<>> THEN <<Joined(mine)>> ELSE <<>>
                            IN Ok([ct |-> p.k, ch |-> [q \in 1..(n - 1) |-> before[q].v.el] \o <<el.v.el>>,
                                   wu |-> wu, more |-> IF c2 = 0 THEN <<>> ELSE SubSeq(more, c2 + 1, Len(more))])

-----------------------------------------------------------------------------
(* Articles *)
ArtHeader(l) ==
    LET t == l.t
        d1 == Span(t, 1, DigitSet)
        colon == d1 > 0 /\ d1 + 1 <= Len(t) /\ Chr(t, d1 + 1) = ":" /\ Span(t, d1 + 2, DigitSet) > 0
        s2 == IF colon THEN d1 + 2 ELSE 1
        d2 == Span(t, s2, DigitSet)
        e1 == s2 + d2 - 1
        e2 == IF d2 > 0 /\ e1 + 2 <= Len(t) /\ Chr(t, e1 + 1) = "/" /\ Chr(t, e1 + 2) \in UpperSet THEN e1 + 2 ELSE e1
        dot == e2 + 1 <= Len(t) /\ Chr(t, e2 + 1) = "."
        sg == IF ~dot \/ d2 = 0 THEN 0
              ELSE IF e2 + 2 <= Len(t) /\ Chr(t, e2 + 2) = "§" THEN e2 + 2
              ELSE IF e2 + 3 <= Len(t) /\ SubSeq(t, e2 + 2, e2 + 3) = " §" THEN e2 + 3 ELSE 0
    IN IF sg = 0 THEN Err
       ELSE LET id == ParseArt(Take(t, e2))
                rest == RestAfter(l, sg)
            IN IF IsOk(id) /\ IsOk(rest) THEN Ok([id |-> id.v, rest |-> rest.v]) ELSE Err
(* last = <<[id, x]>> or <<>>; expected = <<id>> or <<>> *)
ArtStart(l, last, expected, ctx) ==
    IF last # <<>> /\ ~AtMost(l, last[1].x) THEN Err
    ELSE LET h == TLCEval(ArtHeader(l))
         IN IF ~IsOk(h) THEN Err
            ELSE IF IF expected # <<>> THEN h.v.id = expected[1]
                    ELSE IF last # <<>> THEN ArtNext(h.v.id, last[1].id)
                    ELSE ctx = "ba" \/ ArtFirst(h.v.id)
                 THEN h ELSE Err
(* the title in brackets: [title |-> <<>> or <<text>>, ls |-> the rest] *)
RECURSIVE TitleGo(_, _, _)
TitleGo(title, ls, n) ==
    IF EndsWith(title, "]") THEN Ok([title |-> <<Take(title, Len(title) - 1)>>, ls |-> SubSeq(ls, n, Len(ls))])
    ELSE IF n > Len(ls) THEN Err
    ELSE TitleGo(JoinTo(title, ls[n].t), ls, n + 1)
ArtTitle(ls) ==
    IF ~StartsWith(ls[1].t, "[") THEN Ok([title |-> <<>>, ls |-> ls])
    ELSE TitleGo(Drop(ls[1].t, 1), ls, 2)
Article(id, ls, ctx) ==
    LET tt == TLCEval(ArtTitle(ls))
    IN IF ~IsOk(tt) THEN Err
       ELSE LET rest == tt.v.ls
                body == IF rest # <<>> /\ IsEmpty(rest[1]) THEN Tail(rest) ELSE rest
                m == TLCEval(Extract(P("para"), body, ctx, FALSE, TRUE, <<>>))
                one == TLCEval(IF IsOk(m) THEN Err ELSE ParseEl(P("para"), NoPara, body, ctx, TRUE))
            IN IF IsOk(m) THEN Ok([k |-> "art", id |-> ArtStr(id), title |-> tt.v.title, ch |-> m.v.ch])
               ELSE IF IsOk(one) THEN Ok([k |-> "art", id |-> ArtStr(id), title |-> tt.v.title, ch |-> <<one.v.el>>])
               ELSE Err

-----------------------------------------------------------------------------
(* Headers above articles *)
Se(t, id) == [k |-> "se", t |-> t, id |-> NumStr(id), title |-> ""]
BeforeSuffix(t, suf) == IF EndsWith(t, suf) THEN Ok(Take(t, Len(t) - Len(suf))) ELSE Err
LowStr(s) == StrOf([i \in 1..Len(s) |-> IF Chr(s, i) \in UpperSet THEN Chr(Lower, UpperIx[Chr(s, i)] + 1) ELSE Chr(s, i)])
SpecialParts == <<"ÁLTALÁNOS", "KÜLÖNÖS", "ZÁRÓ">>
SeTry(t, typ) ==
    LET s == CASE typ = "book" -> BeforeSuffix(t, " KÖNYV")
               [] typ \in {"part", "spart"} -> BeforeSuffix(t, " RÉSZ")
               [] typ = "title" -> BeforeSuffix(t, ". CÍM")
               [] typ = "chapter" -> IF Len(t) >= 9 /\ LowStr(Drop(t, Len(t) - 9)) = ". fejezet" THEN Ok(Take(t, Len(t) - 9)) ELSE Err
    IN IF ~IsOk(s) THEN Err
       ELSE LET id == CASE typ \in {"book", "part"} -> LET h == FromHun(s.v) IN IF IsOk(h) THEN Ok(Num(h.v, NONE)) ELSE Err
                        [] typ = "spart" -> LET m == {q \in 1..3 : SpecialParts[q] = s.v}
                                            IN IF m = {} THEN Err ELSE Ok(Num(CHOOSE q \in m : TRUE, NONE))
                        [] OTHER -> ParseRomanNum(s.v)
            IN IF IsOk(id) THEN Ok(Se(typ, id.v)) ELSE Err
SeTypes == <<"book", "part", "spart", "title", "chapter">>
SeHeader(l) ==
    LET hits == {q \in 1..5 : IsOk(SeTry(l.t, SeTypes[q]))}
    IN IF hits = {} THEN Err ELSE SeTry(l.t, SeTypes[Least(hits)])
SubHeader(l, prevEmpty, ctx) ==
    IF ~l.b THEN Err
    ELSE LET t == l.t
             d == Span(t, 1, DigitSet)
             e == IF d > 0 /\ d + 2 <= Len(t) /\ Chr(t, d + 1) = "/" /\ Chr(t, d + 2) \in UpperSet THEN d + 2 ELSE d
             numbered == d > 0 /\ e + 3 <= Len(t) /\ SubSeq(t, e + 1, e + 2) = ". " /\ Chr(t, e + 3) \notin {"é", "§"}
         IN IF numbered
            THEN LET id == ParseNum(Take(t, e))
                 IN IF IsOk(id) THEN Ok([k |-> "sub", id |-> NumStr(id.v), title |-> Drop(t, e + 2)]) ELSE Err
            ELSE IF (prevEmpty \/ ctx = "ba") /\ t # "" /\ Chr(t, 1) \in UpperFirst
            THEN Ok([k |-> "sub", id |-> "", title |-> t]) ELSE Err

-----------------------------------------------------------------------------
(* The whole body.  A state of the drafting machine:                        *)
(*   lvl   how deep in quotes the text is                                   *)
(*   pe    was the last line empty                                          *)
(*   last  the last article's header                                        *)
(*   cur   the element being read (its lines, if it is an article)          *)
(*   done  the elements read so far                                         *)
Body0 == [lvl |-> 0, pe |-> TRUE, last |-> <<>>, cur |-> [k |-> "pre"], pre |-> "", done |-> <<>>, ok |-> TRUE]
CloseCur(s, ctx) ==
    CASE s.cur.k = "pre" -> s
      [] s.cur.k = "art" -> LET a == TLCEval(Article(s.cur.id, s.cur.ls, ctx))
                            IN IF IsOk(a) THEN [s EXCEPT !.done = Append(s.done, a.v)] ELSE [s EXCEPT !.ok = FALSE]
      [] OTHER -> [s EXCEPT !.done = Append(s.done, s.cur)]
BodyStep(s, l, ctx) ==
    IF ~s.ok THEN s
    ELSE LET l2 == s.lvl + QDelta(l.t)
             quoted == s.lvl > 0
             se == TLCEval(IF quoted THEN Err ELSE SeHeader(l))
             sub == TLCEval(IF quoted \/ IsOk(se) THEN Err ELSE SubHeader(l, s.pe, ctx))
             art == TLCEval(IF quoted \/ IsOk(se) \/ IsOk(sub) THEN Err ELSE ArtStart(l, s.last, <<>>, ctx))
             t == [s EXCEPT !.lvl = l2, !.pe = IsEmpty(l)]
         IN IF l2 < 0 THEN [s EXCEPT !.ok = FALSE]
            ELSE IF IsOk(se) THEN [CloseCur(t, ctx) EXCEPT !.cur = se.v]
            ELSE IF IsOk(sub) THEN [CloseCur(t, ctx) EXCEPT !.cur = sub.v]
            ELSE IF IsOk(art) THEN [CloseCur(t, ctx) EXCEPT !.cur = [k |-> "art", id |-> art.v.id, ls |-> <<art.v.rest>>],
                                                            !.last = <<[id |-> art.v.id, x |-> l.x]>>]
            ELSE CASE s.cur.k = "pre" -> [t EXCEPT !.pre = JoinTo(s.pre, l.t)]
                   [] s.cur.k = "art" -> [t EXCEPT !.cur.ls = Append(s.cur.ls, l)]
                   [] OTHER -> [t EXCEPT !.cur.title = JoinTo(s.cur.title, l.t)]
RECURSIVE BodyRun(_, _, _, _)
BodyRun(s, ls, n, ctx) == IF n > Len(ls) THEN s ELSE BodyRun(TLCEval(BodyStep(s, ls[n], ctx)), ls, n + 1, ctx)
TwoByte == CharSet(AccentLower) \cup CharSet(AccentUpper) \cup {"§"}
BodyResult(s, ctx) ==
    IF ~s.ok \/ s.lvl # 0 \/ s.cur.k = "pre" THEN Err
    ELSE LET f == TLCEval(CloseCur(s, ctx))
         IN IF ~f.ok \/ (ctx = "ba" /\ f.pre # "") THEN Err
            ELSE IF \E q \in 1..Len(f.done) : f.done[q].k = "sub" /\ Len(f.done[q].title) + CountIn(f.done[q].title, TwoByte) > 1500 THEN Err
            ELSE Ok([pre |-> f.pre, ch |-> f.done])
ParseBody(ls, ctx) == BodyResult(BodyRun(Body0, ls, 1, ctx), ctx)
=============================================================================
