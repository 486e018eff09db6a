------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* Correcting acts over time: the lines of an act as printed, the           *)
(* corrections recorded for it, and sessions in which the user is shown the *)
(* corrected lines in an editor and changes them.  The recorded corrections *)
(* are the only thing that lasts.                                           *)
(* Lines are [t, b] here: text and boldness.                                *)
(***************************************************************************)
EXTENDS Line
Sl(t, b) == [t |-> t, b |-> b]
SFix(after, old, new, bold) == [after |-> after, old |-> old, new |-> new, bold |-> bold]
Texts(ls) == [q \in 1..Len(ls) |-> ls[q].t]
SPlaces(ts, f) ==
    LET a == Len(f.after) IN {q \in (a + 1)..Len(ts) : ts[q] = f.old /\ \A z \in 1..a : ts[q - a - 1 + z] = f.after[z]}
SApply1(ls, f) ==
    LET ps == SPlaces(Texts(ls), f)
    IN IF Cardinality(ps) # 1 \/ (f.old = f.new /\ ~f.bold) THEN Err
       ELSE LET p == CHOOSE q \in ps : TRUE
            IN Ok([ls EXCEPT ![p] = Sl(f.new, f.new # "" /\ (f.bold \/ (ls[p].b /\ ls[p].t # "")))])
RECURSIVE SApply(_, _, _)
SApply(ls, fs, n) == IF n > Len(fs) THEN Ok(ls) ELSE LET r == TLCEval(SApply1(ls, fs[n])) IN IF IsOk(r) THEN SApply(r.v, fs, n + 1) ELSE Err
RECURSIVE Single(_, _)
Single(ls, n) == IF n > Len(ls) THEN <<>>
                 ELSE (IF n > 1 /\ ls[n].t = "" /\ ls[n - 1].t = "" THEN <<>> ELSE <<ls[n]>>) \o Single(ls, n + 1)

-----------------------------------------------------------------------------
(* what the editor is started with: quote levels, and the line to look at *)
RECURSIVE Levels(_, _, _)
Levels(ts, n, l) == IF n > Len(ts) THEN <<>> ELSE LET m == l + QDelta(ts[n]) IN <<m>> \o Levels(ts, n + 1, m)
LookAt(ts) ==
    LET lv == TLCEval(Levels(ts, 1, 0))
        bad == {q \in 1..Len(ts) : lv[q] < 0}
        out == {q \in 1..Len(ts) : lv[q] <= 0}
    IN IF bad # {} THEN Min(bad) ELSE IF out # {} THEN Max(out) + 1 ELSE 1
Num(n) == IF n < 0 THEN "-" \o ToString(0 - n) ELSE ToString(n)
Shown(ls) == LET ts == Texts(ls) lv == TLCEval(Levels(ts, 1, 0)) IN [q \in 1..Len(ts) |-> [q |-> Num(lv[q]), t |-> ts[q]]]

-----------------------------------------------------------------------------
(* what the user leaves in the file, line by line: the first five columns are not theirs *)
Spaces == {" ", "\t"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(t) == IF t # "" /\ Chr(t, 1) \in Spaces THEN TrimL(Drop(t, 1)) ELSE t
TrimR(t) == IF t # "" /\ Chr(t, Len(t)) \in Spaces THEN TrimR(Take(t, Len(t) - 1)) ELSE t
Trimmed(t) == TrimL(TrimR(t))
Written(fl) == [q \in 1..Len(fl) |-> IF Len(fl[q]) <= 5 THEN "" ELSE Trimmed(Drop(fl[q], 5))]
BoldTag == "<BOLD>"
RECURSIVE Without(_, _)
Without(t, w) == LET p == FindStr(t, w, 1) IN IF p = 0 THEN t ELSE Take(t, p - 1) \o Without(Drop(t, p + Len(w) - 1), w)
Wanted(t) == IF FindStr(t, BoldTag, 1) > 0 THEN [t |-> Trimmed(Without(t, BoldTag)), b |-> TRUE] ELSE [t |-> t, b |-> FALSE]
(* recording: each changed line with as few lines before it as make it unique, ten at most *)
RECURSIVE Record(_, _, _, _)
Record(ts, ws, n, fs) ==
    IF n > Len(ts) THEN Ok(fs)
    ELSE IF ts[n] = ws[n] THEN Record(ts, ws, n + 1, fs)
    ELSE LET c == {z \in 0..Min2(n - 1, 10) : Cardinality(SPlaces(ts, SFix(SubSeq(ts, n - z, n - 1), ts[n], "", FALSE))) = 1}
         IN IF c = {} THEN Err
            ELSE LET z == Min(c) w == Wanted(ws[n])
                 IN Record([ts EXCEPT ![n] = w.t], ws, n + 1, Append(fs, SFix(SubSeq(ts, n - z, n - 1), ts[n], w.t, w.b)))
(* a session: [shown, plus] and the corrections recorded after it, or an error and nothing recorded *)
EditStep(raw, store, fl) ==
    LET r == TLCEval(SApply(raw, store, 1))
    IN IF ~IsOk(r) THEN [out |-> [code |-> 1], store |-> store, ok |-> FALSE]
       ELSE LET ts == Texts(r.v) ws == TLCEval(Written(fl))
                n == IF Len(ws) # Len(ts) THEN Err ELSE Record(ts, ws, 1, <<>>)
            IN [out |-> [code |-> 1, plus |-> "+" \o ToString(LookAt(ts)), shown |-> Shown(r.v)],
                store |-> IF IsOk(n) THEN store \o n.v ELSE store, ok |-> IsOk(n)]
ReadStep(raw, store) ==
    LET r == TLCEval(SApply(raw, store, 1)) IN IF IsOk(r) THEN [code |-> 0, lines |-> Single(r.v, 1)] ELSE [code |-> 1]

-----------------------------------------------------------------------------
(* histories: i = [raws |-> <<lines of act 1, of act 2>>, steps |-> <<[op, a, lines]>>] *)
RECURSIVE SRun(_, _, _, _)
SRun(raws, stores, steps, n) ==
    IF n > Len(steps) THEN <<>>
    ELSE LET s == steps[n]
         IN IF s.op = "read" THEN <<ReadStep(raws[s.a], stores[s.a])>> \o SRun(raws, stores, steps, n + 1)
            ELSE LET e == TLCEval(EditStep(raws[s.a], stores[s.a], s.lines))
                 IN <<e.out>> \o SRun(raws, [stores EXCEPT ![s.a] = e.store], steps, n + 1)
(* what was recorded before, in another text of the act perhaps *)
Before(i) == IF "pre" \in DOMAIN i THEN i.pre ELSE [q \in 1..Len(i.raws) |-> <<>>]
SessionExpected(i) == Ok(SRun(i.raws, Before(i), i.steps, 1))
(* laws: corrections that applied go on applying, and give exactly what the user last left in the editor; *)
(* while they do not apply, nothing is read, shown or recorded                                            *)
Left(fl) == LET ws == Written(fl) IN [q \in 1..Len(ws) |-> Wanted(ws[q]).t]
RECURSIVE SLaws(_, _, _, _)
SLaws(raws, stores, steps, n) ==
    n > Len(steps) \/
    LET s == steps[n] fits == IsOk(TLCEval(SApply(raws[s.a], stores[s.a], 1)))
    IN IF s.op = "read" THEN (ReadStep(raws[s.a], stores[s.a]).code = 0 <=> fits) /\ SLaws(raws, stores, steps, n + 1)
       ELSE LET e == TLCEval(EditStep(raws[s.a], stores[s.a], s.lines))
                r == TLCEval(SApply(raws[s.a], e.store, 1))
            IN /\ IsOk(r) <=> fits
               /\ e.ok => Texts(r.v) = Left(s.lines)
               /\ ~e.ok => e.store = stores[s.a]
               /\ SLaws(raws, [stores EXCEPT ![s.a] = e.store], steps, n + 1)
SessionLaws(i) == SLaws(i.raws, Before(i), i.steps, 1)
=============================================================================
