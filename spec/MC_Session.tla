----------------------------- MODULE MC_Session -----------------------------
(***************************************************************************)
(* All histories of sessions that change one line each, over a text of      *)
(* alike lines, explored together with the recorded corrections.            *)
(***************************************************************************)
EXTENDS Session, Json
CONSTANTS Raw, News, MaxSessions
VARIABLES store, last, steps
Vars == <<store, last, steps>>
T(ts) == [q \in 1..Len(ts) |-> Sl(ts[q], FALSE)]
RawGaps == T(<<"x", "", "d", "", "r", "y", "", "r">>)
RawAlike == T(<<"r", "r", "x", "r", "", "r">>)
NewsFew == {"", "q"}
NewsAll == {"", "r", "q", "<BOLD>"}
NewsBold == {"", "r", "q<BOLD>"}
Other == T(<<"r", "", "d", "q">>)
Init == store = <<>> /\ last = Texts(Raw) /\ steps = <<>>
File(ts) == [q \in 1..Len(ts) |-> "   0 " \o ts[q]]
Change(p, t) ==
    LET fl == File([last EXCEPT ![p] = t])
        e == EditStep(Raw, store, fl)
    IN /\ steps' = steps \o <<[op |-> "edit", a |-> 1, lines |-> fl, eol |-> "\n", last |-> TRUE], [op |-> "read", a |-> 1]>>
       /\ store' = e.store
       /\ last' = IF e.ok THEN Left(fl) ELSE last
Next == Len(steps) < 2 * MaxSessions /\ \E p \in 1..Len(last), t \in News : t # last[p] /\ Change(p, t)
(* the recorded corrections give what the user left *)
Faithful == LET r == SApply(Raw, store, 1) IN IsOk(r) /\ Texts(r.v) = last
OnlyMore == [][SubSeq(store', 1, Len(store)) = store]_Vars
In == [raws |-> <<Raw, Other>>, steps |-> Append(steps, [op |-> "read", a |-> 2])]
LawsHold == SessionLaws(In)
Emit == Len(steps) < 2 * MaxSessions \/ PrintT("@@" \o ToJson([i |-> In, e |-> SessionExpected(In)]))
=============================================================================
