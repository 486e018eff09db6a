------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* Acts as text: headings, identifiers in a left column, everything wrapped *)
(* to the given width; optionally with terminal colours.                    *)
(***************************************************************************)
EXTENDS Wire

RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
PadTo(s, n) == s \o Spaces(n - Len(s))
Alnum == LowerSet \cup UpperSet \cup DigitSet \cup CharSet(AccentLower \o AccentUpper)

-----------------------------------------------------------------------------
(* Terminal colours: esc is the escape character, "" for no colours *)
Paint(esc, code, s) == IF esc = "" THEN s ELSE esc \o "[" \o code \o "m" \o s \o esc \o "[0m"
(* the position after an escape sequence that starts at i; i if none does *)
Finals == LowerSet \cup UpperSet \cup CharSet("@[]^_{|}~")
RECURSIVE FinalAfter(_, _)
FinalAfter(s, i) == IF i > Len(s) THEN i ELSE IF Chr(s, i) \in Finals THEN i + 1 ELSE FinalAfter(s, i + 1)
SkipEsc(esc, s, i) == IF esc # "" /\ Chr(s, i) = esc THEN FinalAfter(s, i + 2) ELSE i
CharWidth(c) == IF c \in ThreeBytes THEN 2 ELSE 1
RECURSIVE WidthFrom(_, _, _)
WidthFrom(esc, s, i) == IF i > Len(s) THEN 0
                        ELSE LET j == SkipEsc(esc, s, i)
                             IN IF j > i THEN WidthFrom(esc, s, j) ELSE CharWidth(Chr(s, i)) + WidthFrom(esc, s, i + 1)
Width(esc, s) == WidthFrom(esc, s, 1)
(* what is seen of a line, character by character, without the spaces *)
RECURSIVE SeenFrom(_, _, _)
SeenFrom(esc, s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET j == SkipEsc(esc, s, i)
         IN IF j > i THEN SeenFrom(esc, s, j) ELSE (IF Chr(s, i) = " " THEN <<>> ELSE <<Chr(s, i)>>) \o SeenFrom(esc, s, i + 1)
SeenChars(esc, ls) == FlattenSeq([q \in 1..Len(ls) |-> SeenFrom(esc, ls[q], 1)])

-----------------------------------------------------------------------------
(* Wrapping.  A word is <<characters, number of spaces after it>>. *)
RECURSIVE WordsFrom(_, _)
WordsFrom(s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET p == TLCEval(FindChar(s, " ", i))
         IN IF p = 0 THEN <<<<SubSeq(s, i, Len(s)), 0>>>>
            ELSE LET n == Span(s, p, {" "}) IN <<<<SubSeq(s, i, p - 1), n>>>> \o WordsFrom(s, p + n)
(* a word may be parted after a hyphen between letters or digits *)
RECURSIVE HyphenCuts(_, _, _)
HyphenCuts(w, from, i) ==
    IF i > Len(w[1]) THEN <<<<SubSeq(w[1], from, Len(w[1])), w[2]>>>>
    ELSE IF Chr(w[1], i) = "-" /\ i > 1 /\ i < Len(w[1]) /\ Chr(w[1], i - 1) \in Alnum /\ Chr(w[1], i + 1) \in Alnum
    THEN <<<<SubSeq(w[1], from, i), 0>>>> \o HyphenCuts(w, i + 1, i + 1)
    ELSE HyphenCuts(w, from, i + 1)
(* a word wider than the line is broken wherever the line is full *)
RECURSIVE Breaks(_, _, _, _, _, _)
Breaks(esc, w, limit, from, i, width) ==
    IF i > Len(w[1]) THEN (IF from <= Len(w[1]) THEN <<<<SubSeq(w[1], from, Len(w[1])), w[2]>>>> ELSE <<>>)
    ELSE LET j == SkipEsc(esc, w[1], i)
             cw == CharWidth(Chr(w[1], i))
         IN IF j > i THEN Breaks(esc, w, limit, from, j, width)
            ELSE IF width > 0 /\ width + cw > limit THEN <<<<SubSeq(w[1], from, i - 1), 0>>>> \o Breaks(esc, w, limit, i, i + 1, cw)
            ELSE Breaks(esc, w, limit, from, i + 1, TLCEval(width + cw))
Pieces(esc, w, limit) == IF Width(esc, w[1]) > limit THEN Breaks(esc, w, limit, 1, 1, 0) ELSE <<w>>
RECURSIVE PartedAll(_, _), BrokenAll(_, _, _, _)
PartedAll(ws, q) == IF q > Len(ws) THEN <<>> ELSE HyphenCuts(ws[q], 1, 1) \o PartedAll(ws, q + 1)
BrokenAll(esc, ws, limit, q) == IF q > Len(ws) THEN <<>> ELSE Pieces(esc, ws[q], limit) \o BrokenAll(esc, ws, limit, q + 1)
(* words are put in the line as long as they fit; spaces at the end of a line are dropped *)
RECURSIVE FillFrom(_, _, _, _, _, _, _)
FillFrom(esc, ws, q, limit, line, gap, width) ==
    IF q > Len(ws) THEN <<line>>
    ELSE LET w == TLCEval(Width(esc, ws[q][1]))
             fresh == gap = -1
         IN IF ~fresh /\ width + w > limit THEN <<line>> \o FillFrom(esc, ws, q, limit, "", -1, 0)
            ELSE FillFrom(esc, ws, q + 1, limit, TLCEval(line \o Spaces(gap) \o ws[q][1]), ws[q][2], TLCEval(width + w + ws[q][2]))
Wrap(esc, s, limit) ==
    LET words == TLCEval(WordsFrom(s, 1))
        parts == TLCEval(PartedAll(words, 1))
        pieces == TLCEval(BrokenAll(esc, parts, limit, 1))
    IN FillFrom(esc, pieces, 1, limit, "", -1, 0)

-----------------------------------------------------------------------------
(* Output: the finished lines and the unfinished one *)
Out0 == [ls |-> <<>>, cur |-> ""]
Newline(o) == [ls |-> Append(o.ls, o.cur), cur |-> ""]
(* what starts a line is indented *)
Put(o, lvl, s) == [ls |-> o.ls, cur |-> (IF o.cur = "" THEN Spaces(5 * lvl) ELSE o.cur) \o s]
RECURSIVE PutLines(_, _, _, _)
PutLines(o, lvl, ls, q) == IF q > Len(ls) THEN o ELSE PutLines(TLCEval(Newline(Put(o, lvl, ls[q]))), lvl, ls, q + 1)
Write(cx, o, lvl, s) == PutLines(TLCEval(o), lvl, TLCEval(Wrap(cx.esc, s, Max2(0, cx.width - 5 * lvl))), 1)
RECURSIVE ColourRefs(_, _, _, _, _)
ColourRefs(cx, t, refs, default, from) ==
    IF refs = <<>> THEN Paint(cx.esc, default, Drop(t, from))
    ELSE Paint(cx.esc, default, SubSeq(t, from + 1, refs[1][1])) \o Paint(cx.esc, "36", SubSeq(t, refs[1][1] + 1, refs[1][2]))
         \o ColourRefs(cx, t, Tail(refs), default, refs[1][2])
Coloured(cx, e) == IF "si" \notin DOMAIN e THEN Paint(cx.esc, "0", Lead(e))
                   ELSE ColourRefs(cx, Lead(e), e.si.refs, IF e.si.sp = <<>> THEN "0" ELSE "33", 0)

SpecialParts == <<"ÁLTALÁNOS RÉSZ", "KÜLÖNÖS RÉSZ", "ZÁRÓ RÉSZ">>
Heading(c) ==
    LET n == ParseNum(c.id).v
        s(r, tail) == IF IsOk(r) THEN Ok(r.v \o tail) ELSE Err
        up(r) == IF IsOk(r) THEN Ok(UpStr(r.v)) ELSE Err
    IN CASE c.t = "book" -> s(up(NumHun(n)), " KÖNYV")
         [] c.t = "part" -> s(up(NumHun(n)), " RÉSZ")
         [] c.t = "spart" -> IF n.s = NONE /\ n.n \in 1..3 THEN Ok(SpecialParts[n.n]) ELSE Err
         [] c.t = "title" -> s(NumRoman(n), ". CÍM")
         [] OTHER -> s(NumRoman(n), ". FEJEZET")
RECURSIVE Headed(_), HeadedEl(_)
HeadedEl(e) == IF IsText(e) THEN TRUE
               ELSE IF e.ct = "sba" THEN Headed(e.ch.ch)
               ELSE IF e.ct = "ba" THEN \A q \in 1..Len(e.ch.ch) : HeadedEl(e.ch.ch[q]) ELSE TRUE
(* whether every heading of a list of children can be written *)
Headed(ch) == \A q \in 1..Len(ch) : CASE ch[q].k = "se" -> IsOk(Heading(ch[q])) [] ch[q].k = "sub" -> TRUE
                                      [] OTHER -> \A p \in 1..Len(ch[q].ch) : HeadedEl(ch[q].ch[p])
Mark(ct, id) == CASE ct = "para" -> IF id = "" THEN "" ELSE "(" \o id \o ")" [] ct \in {"np", "nsp"} -> id \o "." [] OTHER -> id \o ")"
LeastIndent(ls) == LET s == {ls[q][2] : q \in {q \in 1..Len(ls) : ls[q][1] # "" /\ ls[q][2] > 0}} \cup {4000} IN Min(s)
LineIndent(l) == IF l[1] = "" THEN 0 ELSE l[2]
Cells(d) == IF d <= 0 THEN 0 ELSE d \div 20
(* a list of at most one text, between two marks *)
Optional(cx, o, lvl, l, a, z) == IF l = <<>> THEN o ELSE Write(cx, o, lvl, a \o l[1] \o z)
Bracketed(cx, o, lvl, l) == IF l = <<>> THEN o ELSE Write(cx, o, lvl, Paint(cx.esc, "3", "(" \o l[1] \o ")"))

RECURSIVE QuotedLines(_, _, _, _, _), RQuoted(_, _, _, _, _), REl(_, _, _, _, _), REls(_, _, _, _, _, _), RChild(_, _, _, _), RList(_, _, _, _, _), RKids(_, _, _, _, _)
QuotedLines(o, lvl, ls, least, q) ==
    IF q > Len(ls) THEN o
    ELSE QuotedLines(TLCEval(Newline(Put(o, lvl, Spaces(Cells(LineIndent(ls[q]) - least) + 5) \o ls[q][1]))), lvl, ls, least, q + 1)
RQuoted(cx, o, lvl, bs, q) ==
    IF q > Len(bs) THEN o
    ELSE LET b == bs[q]
             a == TLCEval(Write(cx, TLCEval(Optional(cx, o, lvl, b.in, "", "")), lvl, "„"))
             m == TLCEval(QuotedLines(a, lvl, b.ls, LeastIndent(b.ls), 1))
             z == TLCEval(Write(cx, m, lvl, "”"))
         IN RQuoted(cx, TLCEval(Optional(cx, z, lvl, b.wu, "", "")), lvl, bs, q + 1)
REls(cx, o, lvl, ct, es, q) == IF q > Len(es) THEN o ELSE REls(cx, TLCEval(REl(cx, o, lvl, ct, es[q])), lvl, ct, es, q + 1)
RList(cx, o, lvl, ch, q) == IF q > Len(ch) THEN o ELSE RList(cx, TLCEval(RChild(cx, o, lvl, ch[q])), lvl, ch, q + 1)
RKids(cx, o, lvl, ct, ch) ==
    CASE ct = "qb" -> RQuoted(cx, o, lvl, ch, 1)
      [] ct \in {"ba", "sba"} ->
           LET a == TLCEval(Write(cx, TLCEval(Bracketed(cx, o, lvl, ch.in)), lvl, "„"))
               m == TLCEval(IF ct = "ba" THEN REls(cx, a, TLCEval(lvl + 1), ch.ct, ch.ch, 1) ELSE RList(cx, a, TLCEval(lvl + 1), ch.ch, 1))
               z == TLCEval(Write(cx, m, lvl, "”"))
           IN Bracketed(cx, z, lvl, ch.wu)
      [] OTHER -> REls(cx, o, lvl, ct, ch, 1)
REl(cx, o, lvl, ct, e) ==
    LET h == TLCEval(Put(o, lvl, PadTo(Mark(ct, e.id), 5)))
        in == TLCEval(lvl + 1)
        a == TLCEval(Write(cx, h, in, TLCEval(Coloured(cx, e))))
        b == TLCEval(RKids(cx, a, in, e.ct, e.ch))
    IN IF IsText(e) THEN a ELSE Optional(cx, b, in, e.wu, "", "")
RChild(cx, o, lvl, c) ==
    CASE c.k = "se" -> LET a == TLCEval(Write(cx, o, lvl, Paint(cx.esc, "3", Heading(c).v)))
                       IN IF c.title = "" THEN a ELSE Write(cx, a, lvl, Paint(cx.esc, "3", c.title))
      [] c.k = "sub" -> Write(cx, o, lvl, Paint(cx.esc, "1", (IF c.id = "" THEN "" ELSE NumSlash(ParseNum(c.id).v) \o ". ") \o c.title))
      [] OTHER -> LET a == TLCEval(Put(o, lvl, Paint(cx.esc, "1", PadTo(c.id \o ". §", 10))))
                      in == TLCEval(lvl + 2)
                      t == TLCEval(Optional(cx, a, in, c.title, "     [", "]"))
                  IN IF c.ch = <<>> THEN Newline(t) ELSE REls(cx, t, in, "para", c.ch, 1)
RECURSIVE RChildren(_, _, _, _, _)
RChildren(cx, o, ch, q, afterArticle) ==
    IF q > Len(ch) THEN o
    ELSE LET art == ch[q].k = "art"
             a == IF afterArticle /\ art THEN o ELSE Newline(o)
         IN RChildren(cx, TLCEval(RChild(cx, TLCEval(a), 1, ch[q])), ch, q + 1, art)
Text(a, width, esc) ==
    LET cx == TLCEval([width |-> width, esc |-> esc])
        o == TLCEval(Put(Out0, 1, Paint(esc, "1", ActStr([y |-> a.y, n |-> a.n])) \o " " \o a.subject))
        p == TLCEval(Newline(TLCEval(Write(cx, TLCEval(Newline(TLCEval(Newline(o)))), 1, a.pre))))
        z == TLCEval(RChildren(cx, p, a.ch, 1, TRUE))
    IN IF Headed(a.ch) THEN Ok(Append(z.ls, z.cur)) ELSE Err

-----------------------------------------------------------------------------
(* Lines of pages and of raw acts *)
ShowLine(l, tags) ==
    LET bold == l[1] # "" /\ l[3] = 1
        nj == ~(l[1] # "" /\ l[4] = 1)
        i0 == Cells(LineIndent(l))
        i1 == IF tags /\ bold THEN Max2(0, i0 - 6) ELSE i0
        i2 == IF tags /\ nj THEN Max2(0, i1 - 4) ELSE i1
    IN (IF tags /\ bold THEN "<BOLD>" ELSE "") \o (IF tags /\ nj THEN "<NJ>" ELSE "") \o Spaces(i2) \o l[1]
ShowLines(ls, tags) == [q \in 1..Len(ls) |-> ShowLine(ls[q], tags)]
ShowRaw(a, tags) == <<"Act ID: " \o ActStr([y |-> a.y, n |-> a.n]) \o " - " \o a.subject, "Pub date: " \o a.date, "">> \o ShowLines(a.ls, tags) \o <<"">>
ShowPages(ps, tags) ==
    FlattenSeq([q \in 1..Len(ps) |-> <<"", "------- page " \o ToString(q) \o "/" \o ToString(Len(ps)) \o " -------", "">> \o ShowLines(ps[q], tags)]) \o <<"">>

-----------------------------------------------------------------------------
(* What holds of every text *)
(* nothing but spaces is lost, lines keep to the width, and no line could have taken the next word *)
WrapLaws(esc, s, limit) ==
    LET ls == Wrap(esc, s, limit)
    IN /\ SeenChars(esc, ls) = SeenFrom(esc, s, 1)
       /\ \A q \in 1..Len(ls) : Width(esc, ls[q]) <= Max2(limit, 2)
       /\ Width(esc, s) <= limit /\ ~EndsWith(s, " ") => ls = <<s>>
       /\ \A q \in 1..Len(ls) : q < Len(ls) => ~EndsWith(ls[q], " ")
=============================================================================
