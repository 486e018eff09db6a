-------------------------------- MODULE Cite --------------------------------
(***************************************************************************)
(* Citations in running text.  A text is a sequence of atoms: words, quoted *)
(* matter, mentions of acts (by number, or by an abbreviation introduced    *)
(* earlier), references to parts of acts, and what separates them.  The     *)
(* module says how atoms are written, which of them form one citation, what *)
(* each stands for and which bytes of the text it occupies.                 *)
(***************************************************************************)
EXTENDS Ref

(* bytes of UTF-8 *)
OneByte == LowerSet \cup UpperSet \cup DigitSet \cup CharSet(" !\"#$%&'()*+,-./:;<=>?@[]^_{|}~\t")
ThreeByte == CharSet("„”“’‘–—−…•‰€")
Bytes(s) == Len(s) + Cardinality({q \in 1..Len(s) : Chr(s, q) \notin OneByte}) + Cardinality({q \in 1..Len(s) : Chr(s, q) \in ThreeByte})

-----------------------------------------------------------------------------
(* How references are written.  A reference is a chain of levels; each level *)
(* lists parts, single or ranges, with a separator before all but the first, *)
(* and ends with the word for that level.                                    *)
LevelOf(t) == CASE t = "art" -> 2 [] t = "para" -> 3 [] t \in {"ap", "np"} -> 4 [] OTHER -> 5
TypeAt(t) == CASE t = "art" -> "art" [] t \in {"para", "np", "nsp"} -> "num" [] t = "ap" -> "letter" [] OTHER -> "pre"
PartText(t, p) ==
    LET r == p.e # ""
    IN CASE t = "art" -> p.s \o (IF r THEN (IF p.f = 1 THEN ". §" ELSE "") \o p.d \o p.e ELSE "") \o "."
         [] t \in {"np", "nsp"} -> p.s \o (IF r THEN p.d \o p.e ELSE "") \o "."
         [] t = "para" -> "(" \o p.s \o ")" \o (IF r THEN p.d \o "(" \o p.e \o ")" ELSE "")
         [] OTHER -> p.s \o (IF r THEN (IF p.f = 1 THEN "" ELSE ")") \o p.d \o p.e ELSE "") \o ")"
(* what a part stands for; the end of a range is in the book of its start *)
PartKeys(t, p) ==
    LET ty == TypeAt(t)
        a == Parse(ty, p.s)
        b == IF p.e = "" THEN a ELSE Parse(ty, p.e)
    IN IF ~IsOk(a) \/ ~IsOk(b) THEN Err
       ELSE Ok(Part(ty, Key(ty, a.v), IF t = "art" THEN Key(ty, Art(a.v.b, b.v.id)) ELSE Key(ty, b.v)))

(* the parts of a chain with the places where they stand, from `at` on *)
RECURSIVE Laid(_, _, _, _), LaidParts(_, _, _, _)
LaidParts(t, ps, i, at) ==
    IF i > Len(ps) THEN [ev |-> <<>>, x |-> ""]
    ELSE LET lead == IF i = 1 THEN "" ELSE ps[i].sep
             w == PartText(t, ps[i])
             s == at + Bytes(lead)
             rest == LaidParts(t, ps, i + 1, s + Bytes(w))
         IN [ev |-> <<[t |-> t, p |-> ps[i], s |-> s, e |-> s + Bytes(w), again |-> i > 1]>> \o rest.ev, x |-> lead \o w \o rest.x]
Laid(lv, i, at, x) ==
    IF i > Len(lv) THEN [ev |-> <<>>, x |-> x, end |-> at]
    ELSE LET lead == IF i = 1 THEN "" ELSE " "
             ps == LaidParts(lv[i].t, lv[i].ps, 1, at + Bytes(lead))
             w == lead \o ps.x \o " " \o lv[i].suf
             rest == Laid(lv, i + 1, at + Bytes(w), x \o w)
         IN [ev |-> ps.ev \o rest.ev, x |-> rest.x, end |-> rest.end]
RefText(a) == Laid(a.lv, 1, 0, "").x

-----------------------------------------------------------------------------
(* Texts of atoms *)
ActText(a) == a.y \o ". évi " \o a.n \o ". " \o a.suf
ActMention(a) == ActText(a) \o (IF a.ab = "" THEN "" ELSE " (a továbbiakban" \o a.colon \o " " \o a.ab \o ")")
(* a mention of a part of the act above the articles *)
StrText(a) == (IF a.bk = "" THEN "" ELSE a.bk \o " " \o a.bsuf \o " ")
              \o (CASE a.t = "part" -> a.id \o " " \o a.suf
                    [] a.t = "subt" -> "„" \o a.id \o "” " \o a.suf
                    [] a.t = "raw" -> a.id \o " " \o a.suf
                    [] OTHER -> a.id \o (IF a.e = "" THEN "" ELSE a.d \o a.e) \o ". " \o a.suf)
              \o (IF a.to = "" THEN "" ELSE " " \o a.to)
RECURSIVE SubsText(_, _)
SubsText(ps, i) == IF i > Len(ps) THEN "" ELSE ps[i].sep \o ps[i].s \o (IF ps[i].e = "" THEN "" ELSE ps[i].d \o ps[i].e) \o "." \o SubsText(ps, i + 1)
(* days: a date, so many days after publication, a day of a month after publication *)
DayText(a) == CASE a.t = "date" -> a.y \o ". " \o a.m \o " " \o a.n \o a.suf
                [] a.t = "days" -> a.lead \o " követő " \o (IF a.n = "" THEN "" ELSE a.n \o " ") \o "napon"
                [] OTHER -> a.lead \o " követő " \o (IF a.m = "" THEN "" ELSE a.m \o " ") \o "hónap " \o a.n \o " napján"
AtomText(a) == CASE a.k = "act" -> ActMention(a)
                 [] a.k = "str" -> StrText(a)
                 [] a.k = "subs" -> SubsText(a.ps, 1) \o " " \o a.suf
                 [] a.k = "day" -> DayText(a)
                 [] a.k = "ref" -> RefText(a)
                 [] a.k = "q" -> "„" \o a.s \o "”"
                 [] OTHER -> a.s
Written(a) == a.p \o AtomText(a)
RECURSIVE TextOf(_, _)
TextOf(as, i) == IF i > Len(as) THEN "" ELSE Written(as[i]) \o TextOf(as, i + 1)
Text(as) == TextOf(as, 1)
(* where each atom starts, without the blanks before it *)
RECURSIVE StartsFrom(_, _, _)
StartsFrom(as, i, at) == IF i > Len(as) THEN <<>> ELSE <<at + Bytes(as[i].p)>> \o StartsFrom(as, i + 1, at + Bytes(Written(as[i])))
Starts(as) == StartsFrom(as, 1, 0)

-----------------------------------------------------------------------------
(* Abbreviations: a function from names to acts <<year, number>> *)
ActOf(a) == LET y == ParseSigned(a.y, -32768, 32767) n == FromRoman(a.n)
            IN IF IsOk(y) /\ IsOk(n) THEN Ok(<<y.v, n.v>>) ELSE Err
Introduces(a) == a.k = "act" /\ a.ab # ""
RECURSIVE NewAbbr(_, _)
(* what a text introduces, in order; an act without a valid number cannot be introduced *)
NewAbbr(as, i) == IF i > Len(as) THEN <<>>
                  ELSE (IF Introduces(as[i]) THEN <<[n |-> as[i].ab, a |-> ActOf(as[i])]>> ELSE <<>>) \o NewAbbr(as, i + 1)
RECURSIVE AddAbbr(_, _, _)
AddAbbr(known, l, i) == IF i > Len(l) THEN known ELSE AddAbbr((l[i].n :> l[i].a.v) @@ known, l, i + 1)

(* is atom i a mention of an act?  An abbreviation counts once it is known;   *)
(* where several known ones fit, the longest is meant.                        *)
NamesAt(as, i, known) == {n \in DOMAIN known \cup {as[j].ab : j \in {j \in 1..(i - 1) : Introduces(as[j])}} : StartsWith(as[i].s, n)}
NameAt(as, i, known) == LET ns == NamesAt(as, i, known) IN CHOOSE n \in ns : \A m \in ns : Len(m) <= Len(n)
Mentions(as, i, known) ==
    /\ i <= Len(as)
    /\ \/ as[i].k = "act"
       \/ as[i].k = "ab" /\ NamesAt(as, i, known) # {}
(* a mention that ends its atom *)
Wholly(as, i, known) == as[i].k = "act" \/ NameAt(as, i, known) = as[i].s

-----------------------------------------------------------------------------
(* Reading a citation: what is set stays set for the references after it,    *)
(* until a part of the same or a higher level replaces it.                   *)
Acc0 == [b |-> NoRef, st |-> -1, en |-> 0, m |-> <<>>, ok |-> TRUE]
Rec(acc) == [acc EXCEPT !.m = Append(@, [s |-> acc.st, e |-> acc.en, r |-> acc.b]), !.ok = @ /\ Valid(acc.b) /\ acc.st >= 0, !.st = -1]
SetAt(acc, l, part, s, e) ==
    IF ~IsOk(part) THEN [acc EXCEPT !.ok = FALSE]
    ELSE [acc EXCEPT !.b = BSet(acc.b, l, part.v), !.st = IF acc.st < 0 THEN s ELSE @, !.en = e]
RECURSIVE FeedParts(_, _, _)
FeedParts(acc, ev, i) ==
    IF i > Len(ev) THEN acc
    ELSE LET a == IF ev[i].again THEN Rec(acc) ELSE acc
         IN FeedParts(SetAt(a, LevelOf(ev[i].t), PartKeys(ev[i].t, ev[i].p), ev[i].s, ev[i].e), ev, i + 1)
FeedRef(acc, lv, at) ==
    LET l == Laid(lv, 1, at, "")
    IN Rec([FeedParts(acc, l.ev, 1) EXCEPT !.en = l.end])
FeedAct(acc, as, i, known, late, starts) ==
    LET name == NameAt(as, i, known)
        id == IF as[i].k = "act" THEN ActOf(as[i]) ELSE Ok(late[name])
    IN Rec(SetAt(acc, 1, IF IsOk(id) THEN Ok(Part("act", id.v, id.v)) ELSE Err, starts[i],
                 starts[i] + (IF as[i].k = "act" THEN Bytes(ActText(as[i])) ELSE Bytes(name))))

(* the references after position i that belong to the same citation: those   *)
(* with nothing but a separator, and its article, in between                 *)
Articled(as, i) == i <= Len(as) /\ as[i].k = "kw" /\ as[i].o = "az" /\ as[i].s \in {"a", "az"}
RECURSIVE Run(_, _)
Run(as, i) == IF i <= Len(as) /\ as[i].k = "ref" THEN
                  <<i>> \o (IF i + 2 <= Len(as) /\ as[i + 1].k = "sep" THEN Run(as, IF Articled(as, i + 2) THEN i + 3 ELSE i + 2) ELSE <<>>)
              ELSE <<>>
RECURSIVE FeedRun(_, _, _, _, _)
FeedRun(acc, as, run, q, starts) == IF q > Len(run) THEN acc ELSE FeedRun(FeedRef(acc, as[run[q]].lv, starts[run[q]]), as, run, q + 1, starts)

(* all citations of a text; one that makes no sense is left out as a whole.  *)
(* `late` knows everything the text introduces as well.                      *)
RECURSIVE Cites(_, _, _, _, _)
Cites(as, i, known, late, starts) ==
    IF i > Len(as) THEN <<>>
    ELSE LET act == Mentions(as, i, known)
             run == IF act /\ ~Wholly(as, i, known) THEN <<>> ELSE Run(as, IF act THEN i + 1 ELSE i)
             acc0 == IF act THEN FeedAct(Acc0, as, i, known, late, starts) ELSE Acc0
             acc == FeedRun(acc0, as, run, 1, starts)
             next == IF run = <<>> THEN i + 1 ELSE run[Len(run)] + 1
         IN (IF (act \/ run # <<>>) /\ acc.ok THEN acc.m ELSE <<>>) \o Cites(as, next, known, late, starts)

-----------------------------------------------------------------------------
(* Written values *)
CNothing == [q \in {} |-> q]
CRange(p) == IF p[1].s = p[1].e THEN KStr(p[1].t, p[1].s) ELSE [start |-> KStr(p[1].t, p[1].s), end |-> KStr(p[1].t, p[1].e)]
CAct(k) == [year |-> k[1], number |-> k[2]]
CPart(r, l, name) == IF r[l] = <<>> THEN CNothing ELSE name :> CRange(r[l])
CRef(r) == (IF r[1] = <<>> THEN CNothing ELSE "act" :> CAct(r[1][1].s))
           @@ CPart(r, 2, "article") @@ CPart(r, 3, "paragraph") @@ CPart(r, 4, "point") @@ CPart(r, 5, "subpoint")
CKnown(f) == [n \in DOMAIN f |-> CAct(f[n])]
=============================================================================
