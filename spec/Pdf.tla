-------------------------------- MODULE Pdf ---------------------------------
(***************************************************************************)
(* From the drawing operators of a PDF page to the lines of text on it.     *)
(*                                                                         *)
(* First half: the text machine.  It has a graphics state (text and line    *)
(* matrix, spacings, scale, leading, rise, font), a stack of them, a stack  *)
(* of marked contents, and collects characters with position, width, width  *)
(* of a space and boldness.                                                 *)
(* Second half: characters are gathered into lines, top to bottom, left to  *)
(* right, gaps become spaces and empty lines.                               *)
(*                                                                         *)
(* Lengths are in 1/160 point.  The input gives lengths in 1/8 point.        *)
(***************************************************************************)
EXTENDS Text
U == 20
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
(* codes 128 to 255; codes that WinAnsi leaves undefined are bullets *)
WinHigh == "€•‚ƒ„…†‡ˆ‰Š‹Œ•Ž••‘’“”•–—˜™š›œ•žŸ ¡¢£¤¥¦§¨©ª«¬­®¯°±²³´µ¶·¸¹º»¼½¾¿ÀÁÂÃÄÅÆÇÈÉÊËÌÍÎÏÐÑÒÓÔÕÖ×ØÙÚÛÜÝÞßàáâãäåæçèéêëìíîïðñòóôõö÷øùúûüýþÿ"
MacHigh == "ÄÅÇÉÑÖÜáàâäãåçéèêëíìîïñóòôöõúùûü†°¢£§•¶ß®©™´¨≠ÆØ∞±≤≥¥µ∂∑∏π∫ªºΩæø¿¡¬√ƒ≈∆«»… ÀÃÕŒœ–—“”‘’÷◊ÿŸ⁄€‹›ﬁﬂ‡·‚„‰ÂÊÁËÈÍÎÏÌÓÔÒÚÛÙıˆ˜¯˘˙˚¸˝˛ˇ"
StdHigh == (161 :> "¡" @@ 162 :> "¢" @@ 163 :> "£" @@ 165 :> "¥" @@ 166 :> "ƒ" @@ 167 :> "§" @@ 168 :> "¤" @@ 169 :> "'" @@ 170 :> "“" @@ 171 :> "«" @@ 172 :> "‹" @@ 173 :> "›" @@ 174 :> "ﬁ" @@ 175 :> "ﬂ" @@ 177 :> "–" @@ 178 :> "†" @@ 179 :> "‡" @@ 182 :> "¶" @@ 183 :> "•" @@ 184 :> "‚" @@ 185 :> "„" @@ 186 :> "”" @@ 187 :> "»" @@ 188 :> "…" @@ 189 :> "‰" @@ 191 :> "¿" @@ 193 :> "`" @@ 194 :> "´" @@ 195 :> "ˆ" @@ 196 :> "˜" @@ 198 :> "˘" @@ 199 :> "˙" @@ 200 :> "¨" @@ 202 :> "˚" @@ 203 :> "¸" @@ 205 :> "˝" @@ 206 :> "˛" @@ 207 :> "ˇ" @@ 208 :> "—" @@ 225 :> "Æ" @@ 227 :> "ª" @@ 232 :> "Ł" @@ 233 :> "Ø" @@ 234 :> "Œ" @@ 235 :> "º" @@ 241 :> "æ" @@ 245 :> "ı" @@ 248 :> "ł" @@ 249 :> "ø" @@ 250 :> "œ" @@ 251 :> "ß")
UniHigh == (336 :> "Ő" @@ 337 :> "ő" @@ 368 :> "Ű" @@ 369 :> "ű" @@ 8211 :> "–" @@ 8222 :> "„" @@ 8221 :> "”")
High(enc, c) ==
    CASE enc = "win" -> IF c \in 128..255 THEN Ok(Chr(WinHigh, c - 127)) ELSE Err
      [] enc = "mac" -> IF c \in 128..255 THEN Ok(Chr(MacHigh, c - 127)) ELSE Err
      [] enc = "std" -> IF c \in DOMAIN StdHigh THEN Ok(StdHigh[c]) ELSE Err
      [] enc = "uni" -> IF c \in 160..255 THEN Ok(Chr(WinHigh, c - 127)) ELSE IF c \in DOMAIN UniHigh THEN Ok(UniHigh[c]) ELSE Err
BaseChar(enc, c) ==
    IF enc = "none" THEN Err
    ELSE IF c \in 32..126 THEN
        (IF enc = "std" /\ c = 39 THEN Ok("’") ELSE IF enc = "std" /\ c = 96 THEN Ok("‘") ELSE Ok(Chr(Ascii, c - 31)))
    ELSE High(enc, c)
GlyphChar == [A |-> "A", b |-> "b", Aacute |-> "Á", eacute |-> "é", section |-> "§", ohungarumlaut |-> "ő", quotedblbase |-> "„", quotedblright |-> "”", space |-> " ",
              uhungarumlaut |-> "ű", Ohungarumlaut |-> "Ő", udieresis |-> "ü", endash |-> "–", bullet |-> "•", fi |-> "ﬁ", otilde |-> "õ", hyphen |-> "-", a |-> "a"]
(* the latest of base encoding, differences, and ToUnicode decides; an unknown glyph name stands for no text *)
LastOf(ps, c) == LET m == {q \in 1..Len(ps) : ps[q][1] = c} IN IF m = {} THEN 0 ELSE Max(m)
Glyph(f, c) ==
    LET t == LastOf(f.tu, c) d == LastOf(f.diff, c)
    IN IF t > 0 THEN Ok(f.tu[t][2])
       ELSE IF f.kind = "cid" THEN BaseChar("uni", c)
       ELSE IF d > 0 THEN (IF f.diff[d][2] \in DOMAIN GlyphChar THEN Ok(GlyphChar[f.diff[d][2]]) ELSE Ok(""))
       ELSE BaseChar(f.enc, c)
Width(f, c) == IF c < f.first \/ c >= f.first + Len(f.w) THEN (IF f.kind = "cid" THEN f.dw ELSE 0) ELSE f.w[c - f.first + 1]
IsBoldName(n) == FindStr(n, "bold", 1) > 0 \/ FindStr(n, "Bold", 1) > 0
SpaceW(f) == LET w == Width(f, 32) IN IF w \in {0, 1000} THEN 250 ELSE w
Quirk(c) == CASE c = "Õ" -> "Ő" [] c = "õ" -> "ő" [] c = "Û" -> "Ű" [] c = "û" -> "ű" [] OTHER -> c
Blank == {" ", " ", "\t"}

-----------------------------------------------------------------------------
(* the text machine *)
Mx(a, b, c, d, e, f) == [a |-> a, b |-> b, c |-> c, d |-> d, e |-> e, f |-> f]
Ident2 == Mx(1, 0, 0, 1, 0, 0)
G0 == [tm |-> Ident2, lm |-> Ident2, tc |-> 0, tw |-> 0, hs |-> 100, tl |-> 0, rise |-> 0, font |-> "", fs |-> 0]
P0 == [g |-> G0, stk |-> <<>>, mc |-> <<>>, at |-> <<>>, col |-> [b |-> FALSE, w |-> 0], chars |-> <<>>, err |-> FALSE]
Moved(m, x, y) == [m EXCEPT !.e = x * m.a + y * m.c + m.e, !.f = x * m.b + y * m.d + m.f]
Both(s, m) == [s EXCEPT !.g.tm = m, !.g.lm = m]
Fail(s) == [s EXCEPT !.err = TRUE]
FontNamed(i, n) == LET m == {q \in 1..Len(i.fonts) : i.fonts[q].n = n} IN i.fonts[CHOOSE q \in m : TRUE]
ColOf(f) == [b |-> IsBoldName(f.base), w |-> SpaceW(f)]
SetFont(i, s, n, size) == LET f == FontNamed(i, n) IN [s EXCEPT !.g.font = n, !.g.fs = size, !.col = ColOf(f)]
(* where the next glyph goes, and how its widths scale: size * scale * horizontal factor of the matrix, in percent *)
X(g) == g.rise * g.tm.c + g.tm.e
Y(g) == g.rise * g.tm.d + g.tm.f
Scaled(w, g) == (((w * 4) \div 25) * g.hs * g.fs * g.tm.a) \div 100
Inside(i, x, y) == /\ i.crop[1] * U <= x /\ x <= i.crop[3] * U
                   /\ i.crop[2] * U <= y /\ y <= i.crop[4] * U
(* n characters share the width evenly *)
RECURSIVE Spread(_, _, _, _, _, _, _, _)
Spread(i, s, x, y, step, ws, t, q) ==
    IF q > Len(t) THEN s
    ELSE LET c == Quirk(Chr(t, q)) xx == x + (q - 1) * step
             s2 == IF c \in Blank \/ ~Inside(i, xx, y) THEN s
                   ELSE [s EXCEPT !.chars = Append(@, [x |-> xx, y |-> y, w |-> step, ws |-> ws, b |-> s.col.b, c |-> c])]
         IN Spread(i, s2, x, y, step, ws, t, q + 1)
PutText(i, s, x, y, w, ws, t) == IF t = "" THEN s ELSE Spread(i, s, x, y, w \div Len(t), ws, t, 1)
Advance(g, d) == [g EXCEPT !.tm = Moved(g.tm, d, 0)]
Step(g, f, c) == Advance(g, ((((Width(f, c) * 4) \div 25) * g.fs + (g.tc + (IF c = 32 THEN g.tw ELSE 0))) * g.hs) \div 100)
Cid(i, s, c) ==
    IF s.err \/ s.g.font = "" THEN Fail(s)
    ELSE LET f == FontNamed(i, s.g.font) g == s.g w == Scaled(Width(f, c), g)
         IN IF s.at # <<>>
            THEN LET a == s.at[1]
                     b == IF a.set THEN a ELSE [a EXCEPT !.set = TRUE, !.x = X(g), !.y = Y(g), !.sc = g.hs * g.fs * g.tm.a]
                 IN [s EXCEPT !.at = <<[b EXCEPT !.w = X(g) - b.x + w]>>, !.g = Step(g, f, c)]
            ELSE LET u == Glyph(f, c)
                 IN IF ~IsOk(u) THEN Fail(s)
                    ELSE [PutText(i, s, X(g), Y(g), w, Scaled(s.col.w, g), u.v) EXCEPT !.g = Step(g, f, c)]
RECURSIVE Show(_, _, _, _)
Show(i, s, cs, n) == IF n > Len(cs) THEN s ELSE Show(i, TLCEval(Cid(i, s, cs[n])), cs, n + 1)
ShowStr(i, s, cs) == IF s.g.font = "" THEN Fail(s) ELSE Show(i, s, cs, 1)
RECURSIVE ShowAdj(_, _, _, _)
ShowAdj(i, s, is, n) ==
    IF n > Len(is) THEN s
    ELSE ShowAdj(i, IF is[n][1] = "s" THEN ShowStr(i, s, is[n][2])
                    ELSE [s EXCEPT !.g = Advance(@, ((((0 - is[n][2]) * 4) \div 25) * @.hs * @.fs) \div 100)], is, n + 1)
NewLine(s) == Both(s, Moved(s.g.lm, 0, 0 - s.g.tl))
Restore(i, s) ==
    IF s.stk = <<>> THEN Fail(s)
    ELSE LET g == s.stk[Len(s.stk)] t == [s EXCEPT !.g = g, !.stk = SubSeq(@, 1, Len(@) - 1)]
         IN IF g.font = "" THEN t ELSE [t EXCEPT !.col = ColOf(FontNamed(i, g.font))]
Finish(i, s) ==
    IF s.at = <<>> THEN s
    ELSE LET a == s.at[1] t == [s EXCEPT !.at = <<>>]
         IN IF ~a.set THEN t ELSE PutText(i, t, a.x, a.y, a.w, (((s.col.w * 4) \div 25) * a.sc) \div 100, a.t)
RECURSIVE Op1(_, _, _, _), Ops(_, _, _, _, _)
(* vis: the fonts that can be named here *)
Op1(i, vis, s, o) ==
    IF s.err THEN s ELSE
    CASE o[1] = "q" -> [s EXCEPT !.stk = Append(@, s.g)]
      [] o[1] = "Q" -> Restore(i, s)
      [] o[1] = "BT" -> Both(s, Ident2)
      [] o[1] \in {"ET", "re"} -> s
      [] o[1] = "Tf" -> LET v == LastOf(vis, o[2]) IN IF v = 0 THEN Fail(s) ELSE SetFont(i, s, vis[v][2], o[3])
      [] o[1] = "gs" -> LET m == {q \in 1..Len(i.gs) : i.gs[q].n = o[2]}
                        IN IF m = {} THEN Fail(s) ELSE LET g == i.gs[CHOOSE q \in m : TRUE] IN IF g.f = "" THEN s ELSE SetFont(i, s, g.f, g.s)
      [] o[1] = "Tc" -> [s EXCEPT !.g.tc = o[2] * U]
      [] o[1] = "Tw" -> [s EXCEPT !.g.tw = o[2] * U]
      [] o[1] = "Tz" -> [s EXCEPT !.g.hs = o[2]]
      [] o[1] = "TL" -> [s EXCEPT !.g.tl = o[2] * U]
      [] o[1] = "Ts" -> [s EXCEPT !.g.rise = o[2] * U]
      [] o[1] = "Td" -> Both(s, Moved(s.g.lm, o[2] * U, o[3] * U))
      [] o[1] = "TD" -> [Both(s, Moved(s.g.lm, o[2] * U, o[3] * U)) EXCEPT !.g.tl = 0 - o[3] * U]
      [] o[1] = "Tm" -> Both(s, Mx(o[2], o[3], o[4], o[5], o[6] * U, o[7] * U))
      [] o[1] = "T*" -> NewLine(s)
      [] o[1] = "Tj" -> ShowStr(i, s, o[2])
      [] o[1] = "'" -> ShowStr(i, NewLine(s), o[2])
      [] o[1] = "\"" -> ShowStr(i, NewLine([s EXCEPT !.g.tw = o[2] * U, !.g.tc = o[3] * U]), o[4])
      [] o[1] = "TJ" -> ShowAdj(i, s, o[2], 1)
      [] o[1] \in {"BMC", "BDC", "ACTP"} ->   (* only spans have text of their own *)
                          [s EXCEPT !.mc = Append(@, "other")]
      [] o[1] = "ACT" -> [s EXCEPT !.mc = Append(@, "act"), !.at = <<[t |-> o[2], set |-> FALSE, x |-> 0, y |-> 0, w |-> 0, sc |-> 0]>>]
      [] o[1] = "EMC" -> IF s.mc = <<>> THEN Fail(s)
                         ELSE LET t == [s EXCEPT !.mc = SubSeq(@, 1, Len(@) - 1)] IN IF s.mc[Len(s.mc)] = "act" THEN Finish(i, t) ELSE t
      [] o[1] = "Do" -> LET m == {q \in 1..Len(i.forms) : i.forms[q].n = o[2]}
                        IN IF m = {} THEN Fail(s)
                           ELSE LET x == i.forms[CHOOSE q \in m : TRUE]
                                    t == Ops(i, IF x.own THEN x.vis ELSE vis, [s EXCEPT !.stk = Append(@, s.g)], x.ops, 1)
                                IN IF t.err THEN t ELSE Restore(i, t)
Ops(i, vis, s, os, n) == IF n > Len(os) THEN s ELSE Ops(i, vis, TLCEval(Op1(i, vis, s, os[n])), os, n + 1)

-----------------------------------------------------------------------------
(* gathering characters into lines *)
Part(x, c, b) == [x |-> x, c |-> c, b |-> b]
RECURSIVE LineParts(_, _)
LineParts(cs, n) ==
    IF n > Len(cs) THEN <<>>
    ELSE (IF n = 1 THEN <<>>
          ELSE LET thr == cs[n - 1].x + cs[n - 1].w + cs[n - 1].ws \div 2
               IN IF cs[n].x > thr \/ cs[n].c = "„" THEN <<Part(thr, " ", cs[n].b)>> ELSE <<>>)
         \o <<Part(cs[n].x, cs[n].c, cs[n].b)>> \o LineParts(cs, n + 1)
Justified(l, margin) == 10 * (l.x + l.w) + 8 * l.ws >= 10 * margin
PdfLine(cs, margin) ==
    LET s == SortSeq(cs, LAMBDA p, q : p.x < q.x) IN [p |-> LineParts(s, 1), j |-> Justified(s[Len(s)], margin)]
EmptyLine == [p |-> <<>>, j |-> FALSE]
RECURSIVE LinesFrom(_, _)
LinesFrom(cs, margin) ==   (* cs # <<>>, sorted from top to bottom *)
    LET top == cs[1].y
        n == Cardinality({q \in 1..Len(cs) : top - cs[q].y < 80})
        rest == SubSeq(cs, n + 1, Len(cs))
    IN <<PdfLine(SubSeq(cs, 1, n), margin)>>
       \o (IF rest = <<>> THEN <<>> ELSE (IF top - rest[1].y > 2560 THEN <<EmptyLine>> ELSE <<>>) \o LinesFrom(rest, margin))
PageLines(cs) ==
    IF cs = <<>> THEN <<EmptyLine>>
    ELSE LinesFrom(TLCEval(SortSeq(cs, LAMBDA p, q : p.y > q.y)), Max({0} \cup {cs[q].x + cs[q].w : q \in 1..Len(cs)}))
PLineView(l) == [t |-> StrOf([q \in 1..Len(l.p) |-> l.p[q].c]), at |-> [q \in 1..Len(l.p) |-> l.p[q].x],
                 b |-> [q \in 1..Len(l.p) |-> IF l.p[q].b THEN 1 ELSE 0], j |-> IF l.j THEN 1 ELSE 0]
(* two characters at the same place of the same line: their order is not determined *)
RECURSIVE SameX(_, _)
SameX(cs, n) ==
    IF n > Len(cs) THEN FALSE
    ELSE LET m == Cardinality({q \in n..Len(cs) : cs[n].y - cs[q].y < 80})
         IN Cardinality({cs[q].x : q \in n..n + m - 1}) < m \/ SameX(cs, n + m)
Overprinted(cs) == SameX(TLCEval(SortSeq(cs, LAMBDA p, q : p.y > q.y)), 1)
(* a page that has no contents at all is not taken for an empty one *)
RunPage(i, p) == IF p.ops = <<>> THEN Fail(P0) ELSE Ops(i, p.vis, P0, p.ops, 1)
PageView(cs) == LET ls == TLCEval(PageLines(cs)) IN [q \in 1..Len(ls) |-> PLineView(ls[q])]
PdfExpected(i) ==
    LET r == TLCEval([q \in 1..Len(i.pages) |-> RunPage(i, i.pages[q])])
    IN IF \E q \in 1..Len(r) : r[q].err THEN Err
       ELSE IF \E q \in 1..Len(r) : Overprinted(r[q].chars) THEN [r |-> "skip"]
       ELSE Ok([q \in 1..Len(r) |-> PageView(r[q].chars)])

-----------------------------------------------------------------------------
(* laws: every character drawn in the crop box is on exactly one line, lines  *)
(* run downwards and characters rightwards, no line begins or ends with, or   *)
(* has two neighbouring, spaces; a page is independent of the others          *)
Count(cs, c) == Cardinality({q \in 1..Len(cs) : cs[q].c = c})
RECURSIVE AllParts(_, _)
AllParts(ls, n) == IF n > Len(ls) THEN <<>> ELSE ls[n].p \o AllParts(ls, n + 1)
PageLaws(cs) ==
    LET ls == TLCEval(PageLines(cs)) ps == TLCEval(SelectSeq(AllParts(ls, 1), LAMBDA p : p.c # " "))
    IN /\ Len(ps) = Len(cs) /\ \A c \in {cs[q].c : q \in 1..Len(cs)} : Count(ps, c) = Count(cs, c)
       /\ \A q \in 1..Len(ls) :
            LET p == ls[q].p
            IN /\ p # <<>> => p[1].c # " " /\ p[Len(p)].c # " "
               /\ \A z \in 2..Len(p) : ~(p[z].c = " " /\ p[z - 1].c = " ")
               /\ LET ink == SelectSeq(p, LAMBDA e : e.c # " ") IN \A z \in 2..Len(ink) : ink[z].x >= ink[z - 1].x
               /\ q > 1 => ~(p = <<>> /\ ls[q - 1].p = <<>>)
PdfLaws(i) == \A q \in 1..Len(i.pages) : LET r == TLCEval(RunPage(i, i.pages[q])) IN r.err \/ PageLaws(r.chars)
=============================================================================
