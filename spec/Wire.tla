-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The form in which acts are written to JSON and YAML.  What is absent or  *)
(* has its usual value is left out; everything that is written can be read  *)
(* back.                                                                    *)
(***************************************************************************)
EXTENDS Walk

Nothing == [q \in {} |-> q]
(* field k holding Op(value), unless the list is empty *)
Maybe(l, k, Op(_)) == IF l = <<>> THEN Nothing ELSE k :> Op(l[1])
Same(x) == x
When(b, k, v) == IF b THEN k :> v ELSE Nothing

(* bytes of UTF-8 *)
Ascii == LowerSet \cup UpperSet \cup DigitSet \cup CharSet(" !\"#$%&'()*+,-./:;<=>?@[]^_{|}~")
ThreeBytes == CharSet("„”“’‘–—…•‰€")
ByteLen(c) == IF c \in Ascii THEN 1 ELSE IF c \in ThreeBytes THEN 3 ELSE 2
RECURSIVE Bytes(_)
Bytes(s) == IF s = "" THEN 0 ELSE ByteLen(Chr(s, 1)) + Bytes(Drop(s, 1))

WAct(p) == [year |-> p[1], number |-> p[2]]
WRange(r) == IF Len(r) = 1 THEN r[1] ELSE [start |-> r[1], end |-> r[2]]
WPart(k, r) == IF r = <<>> THEN Nothing ELSE k :> WRange(r)
WRef(r) == Maybe(r.act, "act", WAct) @@ WPart("article", r.art) @@ WPart("paragraph", r.par) @@ WPart("point", r.pt) @@ WPart("subpoint", r.sp)
WTagged(e) == IF e.k = "SubtitleUnknown" THEN e.k
              ELSE e.k :> (IF e.k \in {"SubtitleRange", "Article"} THEN WRange(e.v) ELSE e.v[1])
WSRef(s) == Maybe(s.act, "act", WAct) @@ Maybe(s.book, "book", Same) @@ Maybe(s.parent, "parent", WTagged)
            @@ [structural_element |-> WTagged(s.el)] @@ When(s.only, "title_only", TRUE)
WDate(d) == CASE d.k = "date" -> [Date |-> d.d] [] d.k = "days" -> [DaysAfterPublication |-> d.n]
              [] OTHER -> [DayInMonthAfterPublication |-> Maybe(d.month, "month", Same) @@ [day |-> d.day]]
Each(l, Op(_)) == [q \in 1..Len(l) |-> Op(l[q])]
Some(l, k, Op(_)) == IF l = <<>> THEN Nothing ELSE k :> Each(l, Op)
WRepeal(x) == IF x.k = "r" THEN [Reference |-> WRef(x.r)] ELSE [StructuralReference |-> WSRef(x.s)]
WTarget(r) == CASE r.k = "sae" -> [SAE |-> [reference |-> WRef(r.r)] @@ When(r.part # "All", "amended_part", r.part)]
                [] r.k = "st" -> [Structural |-> WSRef(r.s)] [] OTHER -> [ArticleTitle |-> WRef(r.r)]
WReplace(x) == [reference |-> WTarget(x.ref), from |-> x.from, to |-> x.to]
WPhrase(p) == CASE p.k = "ba" -> [BlockAmendment |-> [position |-> WRef(p.pos), pure_insertion |-> p.ins]]
                [] p.k = "sba" -> [StructuralBlockAmendment |-> [position |-> WSRef(p.pos), pure_insertion |-> p.ins]]
                [] p.k = "ed" -> [EnforcementDate |-> Some(p.positions, "positions", WRef) @@ Some(p.spos, "structural_positions", WSRef)
                                     @@ When(p.def, "is_default", TRUE) @@ [date |-> WDate(p.date)] @@ Maybe(p.rep, "inline_repeal", Same)]
                [] p.k = "rep" -> [Repeal |-> Each(p.l, WRepeal)]
                [] OTHER -> [TextAmendment |-> Each(p.l, WReplace)]
WAbbr(l) == [n \in {l[q][1] : q \in 1..Len(l)} |-> LET q == CHOOSE q \in 1..Len(l) : l[q][1] = n IN [year |-> l[q][2], number |-> l[q][3]]]
WAbbrs(l, k) == When(l # <<>>, k, WAbbr(l))
WInfo(t, si) ==
    When(si.refs # <<>>, "outgoing_references",
         [q \in 1..Len(si.refs) |-> [start |-> Bytes(Take(t, si.refs[q][1])), end |-> Bytes(Take(t, si.refs[q][2])), reference |-> WRef(si.refs[q][3])]])
    @@ WAbbrs(si.abbr, "new_abbreviations") @@ Maybe(si.sp, "special_phrase", WPhrase)
InfoEmpty(e) == "si" \notin DOMAIN e \/ (e.si.refs = <<>> /\ e.si.abbr = <<>> /\ e.si.sp = <<>>)
WCause(c) == CASE c.k = "amend" -> [Amendment |-> WRef(c.r)] [] c.k = "auto" -> "AutoRepeal" [] OTHER -> [Other |-> c.s]
WChange(c) == [date |-> c.date, cause |-> WCause(c)]
WChanged(e) == IF "lc" \in DOMAIN e THEN Maybe(e.lc, "last_change", WChange) ELSE Nothing

WLine(l) == [parts |-> [q \in 1..Len(l[1]) |-> [dx |-> IF q = 1 THEN l[2] ELSE 20, content |-> Chr(l[1], q), bold |-> l[3] = 1]],
             justified |-> IF l[1] = "" THEN FALSE ELSE l[4] = 1, cached_content |-> l[1], cached_bold |-> l[1] # "" /\ l[3] = 1]
WQuoted(b) == Maybe(b.in, "intro", Same) @@ [lines |-> Each(b.ls, WLine)] @@ Maybe(b.wu, "wrap_up", Same)

KidsTag(ct) == CASE ct = "para" -> "Paragraph" [] ct = "ap" -> "AlphabeticPoint" [] ct = "np" -> "NumericPoint" [] ct = "asp" -> "AlphabeticSubpoint"
                 [] ct = "nsp" -> "NumericSubpoint" [] ct = "qb" -> "QuotedBlock" [] ct = "ba" -> "BlockAmendment" [] OTHER -> "StructuralBlockAmendment"
RECURSIVE WEl(_), WChild(_)
WKids(ct, ch) ==
    KidsTag(ct) :> (CASE ct = "qb" -> Each(ch, WQuoted)
                      [] ct = "ba" -> Maybe(ch.in, "intro", Same) @@ [children |-> KidsTag(ch.ct) :> Each(ch.ch, WEl)] @@ Maybe(ch.wu, "wrap_up", Same)
                      [] ct = "sba" -> Maybe(ch.in, "intro", Same) @@ [children |-> Each(ch.ch, WChild)] @@ Maybe(ch.wu, "wrap_up", Same)
                      [] OTHER -> Each(ch, WEl))
WEl(e) == When(e.id # "", "identifier", e.id)
          @@ [body |-> IF IsText(e) THEN e.x ELSE [intro |-> e.in, children |-> WKids(e.ct, e.ch)] @@ Maybe(e.wu, "wrap_up", Same)]
          @@ (IF InfoEmpty(e) THEN Nothing ELSE "semantic_info" :> WInfo(Lead(e), e.si))
          @@ WChanged(e)
WKind(t) == CASE t = "book" -> "Book" [] t = "part" -> [Part |-> Nothing] [] t = "spart" -> [Part |-> [is_special |-> TRUE]]
              [] t = "title" -> "Title" [] OTHER -> "Chapter"
WChild(c) == CASE c.k = "se" -> [StructuralElement |-> [identifier |-> c.id, title |-> c.title, element_type |-> WKind(c.t)] @@ WChanged(c)]
               [] c.k = "sub" -> [Subtitle |-> When(c.id # "", "identifier", c.id) @@ [title |-> c.title] @@ WChanged(c)]
               [] OTHER -> [Article |-> [identifier |-> c.id] @@ Maybe(c.title, "title", Same) @@ [children |-> Each(c.ch, WEl)] @@ WChanged(c)]
WDoc(a) == [identifier |-> [year |-> a.y, number |-> a.n], subject |-> a.subject, preamble |-> a.pre, publication_date |-> a.date,
            children |-> Each(a.ch, WChild)] @@ WAbbrs(a.abbr, "contained_abbreviations")
WRaw(a) == [identifier |-> [year |-> a.y, number |-> a.n], subject |-> a.subject, publication_date |-> a.date, body |-> Each(a.ls, WLine)]
=============================================================================
