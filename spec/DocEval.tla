------------------------------- MODULE DocEval ------------------------------
(***************************************************************************)
(* What an observer of a document sees.                                     *)
(***************************************************************************)
EXTENDS Render

CutsOf(i) == {i.cuts[q] : q \in 1..Len(i.cuts)}
Seen(w) == [done |-> ~w.off, ev |-> w.ev]
RECURSIVE Retitle(_, _, _)
Retitle(ch, ids, q) == IF q > Len(ids) THEN ch
                       ELSE LET p == ArticleAt(ch, ids[q])
                            IN Retitle(IF p = 0 THEN ch ELSE [ch EXCEPT ![p].title = <<"found " \o ToString(q)>>], ids, q + 1)
Find(i) ==
    [all |-> [q \in 1..Len(Articles(i.act)) |-> Articles(i.act)[q].id],
     found |-> [q \in 1..Len(i.ids) |-> LET p == ArticleAt(i.act.ch, i.ids[q]) IN IF p = 0 THEN <<>> ELSE <<ViewChild(i.act.ch[p])>>],
     ch |-> ViewChildren(Retitle(i.act.ch, i.ids, 1))]
Written == {"json", "yaml"}
EscOf(i) == IF i.f = "colored" THEN i.esc ELSE ""
DocExpected(i) ==
    CASE i.op = "walk" -> Ok(Seen(Walk(i.act, i.stop, {}, FALSE).w))
      [] i.op = "edit" -> LET r == Walk(i.act, i.stop, CutsOf(i), TRUE) IN Ok(Seen(r.w) @@ [ch |-> ViewChildren(r.ch)])
      [] i.op = "find" -> Ok(Find(i))
      [] i.op = "wire" -> Ok([lost |-> <<>>, yamldiffers |-> FALSE, w |-> WDoc(i.act)])
      [] i.op = "text" -> Text(i.act, i.width, EscOf(i))
      [] i.op = "raw" -> Ok(IF i.f \in Written THEN WRaw(i) ELSE ShowRaw(i, i.f = "test"))
      [] i.op = "pages" -> Ok(IF i.f \in Written THEN Each(i.ps, LAMBDA p : [lines |-> Each(p, WLine)]) ELSE ShowPages(i.ps, i.f = "test"))
      [] i.op = "show" -> Ok(ShowLine(i.l, i.tags))

(* the text of an act without colours is its coloured text without the escape sequences, when nothing is wrapped *)
TextLaws(i) ==
    LET wide == TLCEval(Text(i.act, 4000, ""))
        t == TLCEval(Text(i.act, i.width, EscOf(i)))
    IN /\ IsOk(t) = IsOk(wide)
       /\ IsOk(t) => SeenChars(EscOf(i), t.v) = SeenChars("", wide.v)
DocLaws(i) ==
    CASE i.op = "walk" -> WalkLaws(i.act, i.stop, {}, FALSE)
      [] i.op = "edit" -> WalkLaws(i.act, i.stop, CutsOf(i), TRUE)
      [] i.op = "text" -> TextLaws(i) /\ WrapLaws("", i.act.pre, Max2(0, i.width - 5))
      [] OTHER -> TRUE
=============================================================================
