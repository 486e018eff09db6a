------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* All histories of operations on the stored corrections or the kept        *)
(* issues, with every way each of them may end.  The histories are carried  *)
(* out on the real code, and what happens is judged against Store.          *)
(***************************************************************************)
EXTENDS Store, Json
CONSTANTS Kind, Hows, Srvs, Keeps, MaxLen
VARIABLES disk, sent, answers, steps
Vars == <<disk, sent, answers, steps>>
All == IF Kind = "fixups" THEN <<<<2011, 80>>, <<2011, 81>>>> ELSE <<<<2011, 71>>, <<2009, 7>>>>
Key == 1..2
F(n, x) == [after |-> <<"before">>, old |-> "old", new |-> "new " \o ToString(n) \o x, bold |-> FALSE]
Init == disk = [a \in Key |-> IF Kind = "fixups" THEN <<>> ELSE 0] /\ sent = 0 /\ answers = {} /\ steps = <<>>
Put(a, s) == disk' \in {[disk EXCEPT ![a] = v] : v \in s}
Save(a, how, keep) ==
    LET add == <<F(Len(steps), "")>>
    IN /\ \E hit \in (IF how = "none" THEN {FALSE} ELSE BOOLEAN) : \E end \in SaveEnds(hit, how) : Put(a, AfterSave(disk[a], add, end))
       /\ steps' = Append(steps, [a |-> a, add |-> add, how |-> how, keep |-> keep,
                                  other |-> IF how = "pause" THEN [a |-> a, add |-> <<F(Len(steps), " other")>>] ELSE [a |-> a]])
       /\ UNCHANGED <<sent, answers>>
Get(a, how, keep, srv) ==
    /\ \E hit \in (IF how = "none" THEN {FALSE} ELSE BOOLEAN) : \E end \in GetEnds(hit, how, disk[a], srv) :
         /\ sent' = IF disk[a] # 0 THEN sent ELSE sent + 1
         /\ Put(a, AfterGet(hit, disk[a], srv, sent'))
         /\ answers' = IF end = "done" THEN answers \cup {<<a, Answer(disk[a], sent')>>} ELSE answers
    /\ steps' = Append(steps, [a |-> a, srv |-> srv, len |-> 7 * Len(steps), how |-> how, keep |-> keep, other |-> [a |-> a]])
Next == Len(steps) < MaxLen /\ \E a \in Key, how \in Hows, keep \in Keeps :
            IF Kind = "fixups" THEN Save(a, how, keep) ELSE \E srv \in Srvs : Get(a, how, keep, srv)
(* corrections are only added to; a kept issue never changes, and is what is answered from then on *)
Grows == [][\A a \in Key : IF Kind = "fixups" THEN SubSeq(disk'[a], 1, Len(disk[a])) = disk[a] ELSE disk[a] # 0 => disk'[a] = disk[a]]_Vars
Apart == [][Cardinality({a \in Key : disk'[a] # disk[a]}) <= 1]_Vars
Sent == Kind = "fixups" \/ \A a \in Key : disk[a] \in 0..sent
OneAnswer == (\A s \in Hows : s = "none") => \A x, y \in answers : x[1] = y[1] => x[2] = y[2]
Emit == Len(steps) < MaxLen \/ PrintT("@@" \o ToJson([i |-> [kind |-> Kind, all |-> All, steps |-> steps]]))
=============================================================================
