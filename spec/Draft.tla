------------------------------- MODULE Draft --------------------------------
(***************************************************************************)
(* The other direction: how a well-formed act is set in lines.  Reading the *)
(* lines must give the act back.  The layout has a step of indentation per  *)
(* level, an indentation of continuation lines, and a number of words per   *)
(* line; titles may be bold as a whole, and so may the first line of an     *)
(* article.                                                                 *)
(***************************************************************************)
EXTENDS StructEval
(* words of a text, which is words separated by single spaces *)
RECURSIVE Words(_)
Words(s) == IF s = "" THEN <<>>
            ELSE LET p == FindChar(s, " ", 1)
                 IN IF p = 0 THEN <<s>> ELSE <<Take(s, p - 1)>> \o Words(Drop(s, p))
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN "" ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o " " \o Spaced(Tail(ws))
RECURSIVE Wrapped(_, _, _)
Wrapped(ws, x, y) ==   (* y = [cont, per] *)
    IF ws = <<>> THEN <<>>
    ELSE LET n == Min2(y.per, Len(ws)) IN <<L(Spaced(SubSeq(ws, 1, n)), x, FALSE, Len(ws) > n)>> \o Wrapped(SubSeq(ws, n + 1, Len(ws)), x, y)
(* a header (with its separating space) and the text after it; further lines start to the right of the header *)
SetText(head, text, x, y) ==
    LET ws == Words(text)
        n == Min2(y.per, Len(ws))
    IN <<L(head \o Spaced(SubSeq(ws, 1, n)), x, FALSE, Len(ws) > n)>> \o Wrapped(SubSeq(ws, n + 1, Len(ws)), x + y.cont, y)
HeadText(ct, id) == CASE ct = "para" -> IF id = "" THEN "" ELSE "(" \o id \o ") "
                      [] ct \in {"np", "nsp"} -> id \o ". "
                      [] ct \in {"ap", "asp"} -> id \o ") "
RECURSIVE CatSeq(_, _)
CatSeq(ss, n) == IF n > Len(ss) THEN <<>> ELSE ss[n] \o CatSeq(ss, n + 1)
SetBlock(b, x, y) ==
    LET n == Len(b.ls)
        tx(q) == (IF q = 1 THEN "„" ELSE "") \o b.ls[q][1] \o (IF q = n THEN "”" ELSE "")
    IN (IF b.in = <<>> THEN <<>> ELSE SetText("(", b.in[1] \o ")", x, y))
       \o [q \in 1..n |-> L(tx(q), IF q = 1 THEN b.ls[q][2] - CharW ELSE b.ls[q][2], FALSE, b.ls[q][4] = 1)]
       \o (IF b.wu = <<>> THEN <<>> ELSE SetText("(", b.wu[1] \o ")", x, y))
RECURSIVE SetEl(_, _, _, _, _)
SetEl(ct, e, pre, x, y) ==
    LET h == pre \o HeadText(ct, e.id)
    IN IF "x" \in DOMAIN e THEN SetText(h, e.x, x, y)
       ELSE SetText(h, e.in, x, y)
            \o (IF e.ct = "qb" THEN CatSeq([q \in 1..Len(e.ch) |-> SetBlock(e.ch[q], x + y.step, y)], 1)
                ELSE CatSeq([q \in 1..Len(e.ch) |-> SetEl(e.ct, e.ch[q], "", x + y.step, y)], 1))
            \o (IF e.wu = <<>> THEN <<>> ELSE Wrapped(Words(e.wu[1]), x + y.step, y))
SetArt(a, y) ==
    LET h == a.id \o ". § "
        inTitle == a.title # <<>>
        px == IF inTitle THEN 40 ELSE Min2(40, y.step)
        ls == (IF inTitle THEN SetText(h \o "[", a.title[1] \o "]", 0, y) ELSE <<>>)
       \o CatSeq([q \in 1..Len(a.ch) |->
            SetEl("para", a.ch[q], IF q = 1 /\ ~inTitle THEN h ELSE "", IF q = 1 /\ ~inTitle THEN 0 ELSE px, y)], 1)
    IN [q \in 1..Len(ls) |-> IF q = 1 /\ y.ab = 1 THEN [ls[q] EXCEPT !.b = TRUE] ELSE ls[q]]
SeHead(c) ==
    LET n == ParseNum(c.id).v
    IN CASE c.t = "book" -> UpStr(HunStr(n.n)) \o " KÖNYV" [] c.t = "part" -> UpStr(HunStr(n.n)) \o " RÉSZ"
         [] c.t = "spart" -> SpecialParts[n.n] \o " RÉSZ" [] c.t = "title" -> NumRoman(n).v \o ". CÍM"
         [] c.t = "chapter" -> NumRoman(n).v \o ". FEJEZET"
SetChild(c, y) ==
    CASE c.k = "art" -> SetArt(c, y)
      [] c.k = "se" -> <<NoLine, L(SeHead(c), 200, TRUE, FALSE)>> \o (LET t == Wrapped(Words(c.title), 200, y) IN [q \in 1..Len(t) |-> [t[q] EXCEPT !.b = (y.tb = 1)]])
      [] c.k = "sub" ->
           LET t == SetText(IF c.id = "" THEN "" ELSE NumSlash(ParseNum(c.id).v) \o ". ", c.title, 200, [y EXCEPT !.cont = 0])
           IN <<NoLine>> \o [q \in 1..Len(t) |-> [t[q] EXCEPT !.b = (q = 1 \/ y.tb = 1)]]
Layout(r, y) == (IF r.pre = "" THEN <<>> ELSE Wrapped(Words(r.pre), 0, y)) \o CatSeq([q \in 1..Len(r.ch) |-> SetChild(r.ch[q], y)], 1)
DraftLines(i) == LET ls == TLCEval(Layout(i.act, i.lay)) IN [q \in 1..Len(ls) |-> LineView(ls[q])]
(* reading a draft gives it back *)
DraftLaws(i) == LET r == BodyView(ParseBody(Layout(i.act, i.lay), "full")) IN IsOk(r) /\ r.v = i.act
=============================================================================
