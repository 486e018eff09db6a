------------------------------ MODULE MC_Walk -------------------------------
(***************************************************************************)
(* The visit, step by step: what is still to be entered or left is kept in  *)
(* a stack, and at every event the visitor goes on, replaces the element it *)
(* enters, or breaks off.  Every finished visit must be what Walk says, and *)
(* is replayed.                                                             *)
(***************************************************************************)
EXTENDS DocEval, Json
CONSTANTS Tree, MaxCuts
VARIABLES ch, todo, ev, cuts, stop
Vars == <<ch, todo, ev, cuts, stop>>

T(i, x) == [id |-> i, x |-> x]
K(i, x, ct, l) == [id |-> i, in |-> x, ct |-> ct, ch |-> l, wu |-> <<>>]
Qb == << [in |-> <<>>, ls |-> << <<"q", 40, 0, 1>> >>, wu |-> <<>>] >>
ArtEl(i, l) == [k |-> "art", id |-> i, title |-> <<>>, ch |-> l]
Sub == [k |-> "sub", id |-> "", title |-> "Cím"]
TreeDeep == << Sub, ArtEl("1", << K("", "in", "ap", << K("a", "ain", "asp", <<T("aa", "x"), T("ab", "")>>), T("b", "y") >>) >>) >>
TreeWide == << ArtEl("1", << T("1", "x"), K("2", "in", "np", <<T("1", ""), T("2", "")>>) >>), Sub, ArtEl("1", << >>), ArtEl("2/A", << T("", "z") >>) >>
TreeAmend == << ArtEl("1", << K("1", "q", "qb", Qb),
                            K("2", "b", "ba", [in |-> <<>>, wu |-> <<"w">>, ct |-> "ap", ch |-> <<T("a", "x"), T("b", "y")>>]),
                            K("3", "s", "sba", [in |-> <<"i">>, wu |-> <<>>, ch |-> <<Sub, ArtEl("5", <<T("", "x")>>)>>]) >>) >>
Act0 == [y |-> 2012, n |-> 1, subject |-> "tárgy", pre |-> "", date |-> "2012-01-02", abbr |-> <<>>, ch |-> Tree]

(* the element at a path: child, paragraph, point, subpoint *)
RECURSIVE At(_, _), SetAt(_, _, _)
At(es, p) == IF Len(p) = 1 THEN es[p[1]] ELSE At(es[p[1]].ch, Tail(p))
SetAt(es, p, e) == [es EXCEPT ![p[1]] = IF Len(p) = 1 THEN e ELSE [es[p[1]] EXCEPT !.ch = SetAt(es[p[1]].ch, Tail(p), e)]]
Kids(es, path, ct, base) == [q \in 1..Len(es) |-> [k |-> "in", path |-> Append(path, q), ct |-> ct, at |-> Below(base, ct, es[q].id)]]
Begin == FlattenSeq([q \in 1..Len(Tree) |-> IF Tree[q].k = "art" THEN Kids(Tree[q].ch, <<q>>, "para", Below(ActPos(Act0), "art", Tree[q].id)) ELSE <<>>])
Init == ch = Tree /\ todo = Begin /\ ev = <<>> /\ cuts = {} /\ stop = 0
Task == Head(todo)
E == At(ch, Task.path)
Event == [k |-> Task.k, at |-> Task.at, ty |-> TypeName(Task.ct), x |-> Lead(E), empty |-> EmptyEl(E)]
See == ev' = Append(ev, Event)
N == Len(ev) + 1
Leave == [Task EXCEPT !.k = "out"]
Enter == /\ Task.k = "in" /\ See
         /\ \/ /\ todo' = (IF IsText(E) \/ E.ct \notin Walked THEN <<>> ELSE Kids(E.ch, Task.path, E.ct, Task.at)) \o <<Leave>> \o Tail(todo)
               /\ UNCHANGED <<ch, cuts>>
            \/ /\ Cardinality(cuts) < MaxCuts
               /\ ch' = SetAt(ch, Task.path, T(E.id, "cut " \o ToString(N)))
               /\ cuts' = cuts \cup {N}
               /\ todo' = <<Leave>> \o Tail(todo)
         /\ UNCHANGED stop
Exit == /\ Task.k = "out" /\ See
        /\ ch' = SetAt(ch, Task.path, IF IsText(E) THEN [E EXCEPT !.x = @ \o "+"] ELSE [E EXCEPT !.in = @ \o "+"])
        /\ todo' = Tail(todo)
        /\ UNCHANGED <<cuts, stop>>
Break == See /\ stop' = N /\ todo' = <<>> /\ UNCHANGED <<ch, cuts>>
Next == todo # <<>> /\ (Enter \/ Exit \/ Break)
Finished == todo = <<>>
In == [op |-> "edit", act |-> Act0, stop |-> stop, cuts |-> SetToSortSeq(cuts, LAMBDA a, b : a < b)]
(* step by step and all at once, the same *)
Agree == Finished => LET r == Walk(Act0, stop, cuts, TRUE) IN r.w.ev = ev /\ r.ch = ch /\ r.w.off = (stop # 0)
(* what is left was entered before, in the opposite order *)
Bracketed_ == Nested(ev, 1, <<>>)
LawsHold == Finished => DocLaws(In)
Emit == Finished => PrintT("@@" \o ToJson([i |-> In, e |-> DocExpected(In)]))
(* what a visit has seen is never seen again, and what lies outside the articles never changes *)
OnlyMore == [][SubSeq(ev', 1, Len(ev)) = ev]_Vars
OnlyArticles == \A q \in 1..Len(Tree) : Tree[q].k = "art" \/ ch[q] = Tree[q]
=============================================================================
