----------------------------- MODULE StructEval -----------------------------
(* The observable result of reading a body, and the laws every result obeys. *)
EXTENDS Structure
LineOf(v) == L(v[1], IF v[1] = "" THEN 0 ELSE v[2], v[1] # "" /\ v[3] = 1, v[1] # "" /\ v[4] = 1)
LinesOf(vs) == TLCEval([q \in 1..Len(vs) |-> LineOf(vs[q])])
LineView(l) == <<l.t, l.x, IF l.b THEN 1 ELSE 0, IF l.j THEN 1 ELSE 0>>
RECURSIVE ElView(_), KidsView(_, _), ChildView(_)
KidsView(ct, ch) ==
    IF ct = "qb" THEN [q \in 1..Len(ch) |-> [in |-> ch[q].in, wu |-> ch[q].wu, ls |-> [z \in 1..Len(ch[q].ls) |-> LineView(ch[q].ls[z])]]]
    ELSE [q \in 1..Len(ch) |-> ElView(ch[q])]
ElView(e) == IF "x" \in DOMAIN e THEN e ELSE [e EXCEPT !.ch = KidsView(e.ct, e.ch)]
ChildView(c) == IF c.k = "art" THEN [c EXCEPT !.ch = [q \in 1..Len(c.ch) |-> ElView(c.ch[q])]] ELSE c
ChildrenView(cs) == [q \in 1..Len(cs) |-> ChildView(cs[q])]
BodyView(r) == IF IsOk(r) THEN Ok([pre |-> r.v.pre, ch |-> ChildrenView(r.v.ch)]) ELSE Err

-----------------------------------------------------------------------------
(* Law 1: nothing is lost, nothing is invented, nothing changes places.     *)
Dropped == {" ", "/", "(", ")", "[", "]"} \cup OpenQ \cup CloseQ
Norm(s) == UpStr(StrOf(SelectSeq(Chars(s), LAMBDA c : c \notin Dropped)))
RECURSIVE Cat(_, _)
Cat(ss, n) == IF n > Len(ss) THEN "" ELSE ss[n] \o Cat(ss, n + 1)
HeadStr(ct, id) == IF ct \in {"np", "nsp"} THEN id \o "." ELSE id
RECURSIVE FlatEl(_, _)
FlatEl(ct, e) ==
    HeadStr(ct, e.id) \o
    (IF "x" \in DOMAIN e THEN e.x
     ELSE e.in \o
          (IF e.ct = "qb"
           THEN Cat([q \in 1..Len(e.ch) |-> Cat(e.ch[q].in, 1) \o Cat(TextsOf(e.ch[q].ls), 1) \o Cat(e.ch[q].wu, 1)], 1)
           ELSE Cat([q \in 1..Len(e.ch) |-> FlatEl(e.ct, e.ch[q])], 1)) \o
          Cat(e.wu, 1))
FlatSe(c) ==
    LET n == ParseNum(c.id).v
    IN (CASE c.t = "book" -> HunStr(n.n) \o "KÖNYV" [] c.t = "part" -> HunStr(n.n) \o "RÉSZ"
          [] c.t = "spart" -> SpecialParts[n.n] \o "RÉSZ" [] c.t = "title" -> NumRoman(n).v \o ".CÍM"
          [] c.t = "chapter" -> NumRoman(n).v \o ".FEJEZET") \o c.title
FlatChild(c) ==
    CASE c.k = "se" -> FlatSe(c)
      [] c.k = "sub" -> (IF c.id = "" THEN "" ELSE c.id \o ".") \o c.title
      [] c.k = "art" -> c.id \o ".§" \o Cat(c.title, 1) \o Cat([q \in 1..Len(c.ch) |-> FlatEl("para", c.ch[q])], 1)
FlatBody(r) == r.pre \o Cat([q \in 1..Len(r.ch) |-> FlatChild(r.ch[q])], 1)
Conserved(ls, r) == Norm(FlatBody(r)) = Norm(Cat(TextsOf(ls), 1))

(* Law 2: siblings are numbered consecutively, from the first number, and come at least in twos. *)
RECURSIVE ElOrder(_, _, _)
KidsOrder(p, ch, single) ==
    LET ids == [q \in 1..Len(ch) |-> IdParse(p, ch[q].id)]
    IN /\ \A q \in 1..Len(ch) : IsOk(ids[q])
       /\ IF Len(ch) = 1 THEN single
          ELSE IdFirst(p, ids[1].v) /\ \A q \in 2..Len(ch) : IdNext(p, ids[q].v, ids[q - 1].v)
       /\ \A q \in 1..Len(ch) : ElOrder(p, ids[q].v, ch[q])
ElOrder(p, id, e) ==
    "x" \in DOMAIN e \/ e.ct = "qb" \/
    CASE e.ct = "asp" -> KidsOrder([k |-> "asp", pf |-> IF p.k = "ap" THEN id ELSE NONE], e.ch, FALSE)
                         /\ \A q \in 1..Len(e.ch) : ParsePre(e.ch[q].id).v.p = (IF p.k = "ap" THEN id ELSE NONE)
      [] OTHER -> KidsOrder(P(e.ct), e.ch, FALSE)
Ordered(r, ctx) ==
    LET arts == SelectSeq(r.ch, LAMBDA c : c.k = "art")
        ids == [q \in 1..Len(arts) |-> ParseArt(arts[q].id).v]
    IN /\ \A q \in 2..Len(ids) : ArtNext(ids[q], ids[q - 1])
       /\ ctx = "full" /\ ids # <<>> => ArtFirst(ids[1])
       /\ \A q \in 1..Len(arts) : KidsOrder(P("para"), arts[q].ch, Len(arts[q].ch) = 1 /\ arts[q].ch[1].id = "")

(* Law 3: what is inside quotes does not matter to the structure.           *)
RECURSIVE LvlBefore(_, _)
LvlBefore(ls, n) == IF n = 1 THEN 0 ELSE LvlBefore(ls, n - 1) + QDelta(ls[n - 1].t)
MaskText(t) == StrOf([q \in 1..Len(t) |-> IF Chr(t, q) \in OpenQ \cup CloseQ THEN Chr(t, q) ELSE "x"])
Masked(ls) == TLCEval([n \in 1..Len(ls) |->
                 IF LvlBefore(ls, n) > 0 /\ LvlBefore(ls, n) + QDelta(ls[n].t) > 0 THEN [ls[n] EXCEPT !.t = MaskText(ls[n].t)] ELSE ls[n]])
RECURSIVE ElSkel(_)
ElSkel(e) == IF "x" \in DOMAIN e THEN e.id
             ELSE e.id \o "<" \o e.ct \o
                  (IF e.ct = "qb" THEN Cat([q \in 1..Len(e.ch) |-> ToString(Len(e.ch[q].ls)) \o ","], 1)
                   ELSE Cat([q \in 1..Len(e.ch) |-> ElSkel(e.ch[q]) \o ","], 1)) \o ">"
Skel(r) == Cat([q \in 1..Len(r.ch) |-> r.ch[q].k \o r.ch[q].id \o
                   (IF r.ch[q].k = "art" THEN Cat([z \in 1..Len(r.ch[q].ch) |-> ElSkel(r.ch[q].ch[z]) \o ";"], 1) ELSE "") \o "|"], 1)
Opaque(ls, r, ctx) == LET m == ParseBody(Masked(ls), ctx) IN IsOk(m) /\ Skel(m.v) = Skel(r)
(* Law 4: unbalanced quotes are never accepted *)
Balanced(ls) == LvlBefore(ls, Len(ls)) + QDelta(ls[Len(ls)].t) = 0 /\ \A n \in 1..Len(ls) : LvlBefore(ls, n) >= 0
BodyLaws(ls, r, ctx) ==
    IsOk(r) => /\ Balanced(ls)
               /\ Conserved(ls, r.v)
               /\ Ordered(r.v, ctx)
               /\ Opaque(ls, r.v, ctx)
StructExpected(i) == BodyView(ParseBody(LinesOf(i.ls), "full"))
StructLaws(i) == LET ls == LinesOf(i.ls) r == TLCEval(ParseBody(ls, "full")) IN BodyLaws(ls, r, "full")
=============================================================================
