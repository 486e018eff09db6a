-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Runs of the command line tool: which issues and acts are read, what is   *)
(* written under which name, and how the run ends.                          *)
(* World: issues [y, n, at, st, acts] (at: the cache directory that has it; *)
(* st: "ok", or why nothing or not everything can be read), acts            *)
(* [y, n, bad, stuck] (bad: lines that stop reading the act, at the         *)
(* structure "q" and "e" (corrected to nothing), at its meaning "s", at its quoted amendment "c"; stuck:   *)
(* the corrections recorded for it do not apply), and the list of acts csv. *)
(* State: done[issue][act], how many of the bad lines have been corrected.  *)
(* What is written is named by a text that says what it is made of.         *)
(***************************************************************************)
EXTENDS Ident
Steps == <<"pdf-lines", "act-lines", "structure", "semantic">>
Formats == <<"plain", "test-plain", "colored", "json", "yaml">>
StepOf(r) == IF r.step = "" THEN "semantic" ELSE r.step
Asked(r) == CASE r.fmt = "" -> "yaml" [] r.fmt = "txt" -> "plain" [] r.fmt = "color" -> "colored" [] r.fmt = "yml" -> "yaml" [] OTHER -> r.fmt
FmtOf(r) == IF r.out = "" /\ Asked(r) = "plain" THEN "colored" ELSE Asked(r)
WidthOf(r) == IF r.w = 0 THEN 105 ELSE r.w
Cache(r) == IF r.cache = "" THEN "cache" ELSE r.cache
Understood(r) == r.ids # <<>> /\ Asked(r) \in Range(Formats) /\ StepOf(r) \in Range(Steps)
IsText(f) == f \in {"plain", "test-plain", "colored"}
Ext(r) == CASE IsText(FmtOf(r)) -> ".txt" [] FmtOf(r) = "json" -> ".json" [] OTHER -> ".yml"
Name(act) == ActStr(Act(act.y, act.n))
IssueName(y, n) == "mk_" \o ToString(y) \o "_" \o ToString(n)
(* what something written is made of *)
OfIssue(y, n, r) == IssueName(y, n) \o " " \o FmtOf(r)
OfAct(a, r, d) == ToString(a.y) \o "/" \o ToString(a.n) \o " " \o StepOf(r) \o " " \o FmtOf(r) \o
                  (IF IsText(FmtOf(r)) /\ StepOf(r) # "act-lines" THEN " " \o ToString(WidthOf(r)) ELSE "") \o " " \o ToString(d)
Nothing == "nothing"

-----------------------------------------------------------------------------
(* what is to be read *)
RowAct(row) == ParseAct(row.a)
ListOk(w) == w.csv.st = "ok" /\ \A q \in 1..Len(w.csv.rows) : IsOk(RowAct(w.csv.rows[q])) /\ IsOk(ParseIssue(w.csv.rows[q].i))
RowsOf(w, a) == {q \in 1..Len(w.csv.rows) : RowAct(w.csv.rows[q]).v = a}
IssueOf(w, a) == ParseIssue(w.csv.rows[Min(RowsOf(w, a))].i).v
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Plan(w, r) ==     (* the issues to read, in order, and the acts asked for (none: all) *)
    IF r.mk
    THEN LET ps == [q \in 1..Len(r.ids) |-> ParseIssue(r.ids[q])]
         IN IF \A q \in 1..Len(ps) : IsOk(ps[q]) THEN Ok([issues |-> [q \in 1..Len(ps) |-> ps[q].v], acts |-> {}]) ELSE Err
    ELSE LET ps == [q \in 1..Len(r.ids) |-> ParseAct(r.ids[q])]
         IN IF (\E q \in 1..Len(ps) : ~IsOk(ps[q])) \/ ~ListOk(w) THEN Err
            ELSE IF \E q \in 1..Len(ps) : RowsOf(w, ps[q].v) = {} THEN Err
            ELSE LET is == {IssueOf(w, ps[q].v) : q \in 1..Len(ps)}
                 IN Ok([issues |-> SetToSortSeq(is, Before), acts |-> {ps[q].v : q \in 1..Len(ps)}])

-----------------------------------------------------------------------------
(* one act: [ok, d, ans, plan] - whether it was read, the lines corrected by then, what is left of the user's answers *)
Fails(a, d, step) ==
    \/ a.stuck
    \/ step # "act-lines" /\ \E q \in (d + 1)..Len(a.bad) : a.bad[q] \in {"q", "e"} \/ step = "semantic"
Yes(t) == t = "" \/ Chr(t, 1) \in {"y", "Y"}
RECURSIVE Attend(_, _, _, _, _)
Attend(a, d, r, ans, plan) ==
    IF ~Fails(a, d, StepOf(r)) THEN [ok |-> TRUE, d |-> d, ans |-> ans, plan |-> plan]
    ELSE IF ~r.ia \/ ans = <<>> THEN [ok |-> FALSE, d |-> d, ans |-> ans, plan |-> plan]
    ELSE IF ~Yes(Head(ans)) \/ a.stuck THEN [ok |-> FALSE, d |-> d, ans |-> Tail(ans), plan |-> plan]
    ELSE LET op == IF plan = <<>> THEN "none" ELSE Head(plan)
             rest == IF plan = <<>> THEN <<>> ELSE Tail(plan)
         IN IF op = "cut" THEN [ok |-> FALSE, d |-> d, ans |-> Tail(ans), plan |-> rest]     (* the editor took a line away *)
            ELSE Attend(a, IF op = "fix" /\ d < Len(a.bad) THEN d + 1 ELSE d, r, Tail(ans), rest)

(* one issue after the other; s = [done, out, ok, found, ans, plan] *)
(* out: what was written, in order: <<name, what, may an error message follow>> *)
Find(w, y, n, r) == {q \in 1..Len(w.issues) : w.issues[q].y = y /\ w.issues[q].n = n /\ w.issues[q].at = Cache(r)}
Readable(st, step) == st = "ok" \/ (st = "nodate" /\ step = "pdf-lines")
Failed(s) == [s EXCEPT !.ok = FALSE, !.out = Append(s.out, <<"", "", TRUE>>)]
RECURSIVE OverActs(_, _, _, _, _, _)
OverActs(acts, asked, q, r, n, s) ==      (* q: the issue's index, n: the act's *)
    IF n > Len(acts) THEN s
    ELSE LET a == acts[n]
         IN IF asked # {} /\ Act(a.y, a.n) \notin asked THEN OverActs(acts, asked, q, r, n + 1, s)
            ELSE IF r.out = "missing" THEN Failed([s EXCEPT !.found = s.found \cup {Act(a.y, a.n)}])
            ELSE LET t == TLCEval(Attend(a, s.done[q][n], r, s.ans, s.plan))
                 IN OverActs(acts, asked, q, r, n + 1,
                        TLCEval([s EXCEPT !.done = [s.done EXCEPT ![q][n] = t.d], !.ok = s.ok /\ t.ok, !.ans = t.ans, !.plan = t.plan,
                                          !.found = s.found \cup {Act(a.y, a.n)},
                                          !.out = Append(s.out, <<Name(a), IF t.ok THEN OfAct(a, r, t.d) ELSE Nothing, FALSE>>)]))
RECURSIVE OverIssues(_, _, _, _, _, _)
OverIssues(w, is, asked, r, n, s) ==
    IF n > Len(is) THEN s
    ELSE LET at == Find(w, is[n][1], is[n][2], r)
             q == CHOOSE z \in at : TRUE
         IN OverIssues(w, is, asked, r, n + 1, TLCEval(
                IF at = {} THEN Failed(s)
                ELSE IF ~Readable(w.issues[q].st, StepOf(r)) THEN Failed(s)
                ELSE IF StepOf(r) # "pdf-lines" THEN OverActs(w.issues[q].acts, asked, q, r, 1, s)
                ELSE IF r.out = "missing" THEN Failed(s)
                ELSE [s EXCEPT !.out = Append(s.out, <<IssueName(is[n][1], is[n][2]), OfIssue(is[n][1], is[n][2], r), FALSE>>)]))
RunOf(w, done, r) ==
    LET s0 == [done |-> done, out |-> <<>>, ok |-> TRUE, found |-> {}, ans |-> r.ans, plan |-> r.plan]
        p == TLCEval(IF Understood(r) THEN Plan(w, r) ELSE Err)
    IN IF ~IsOk(p) THEN [s0 EXCEPT !.ok = FALSE]
       ELSE LET s == TLCEval(OverIssues(w, p.v.issues, p.v.acts, r, 1, s0))
            IN [s EXCEPT !.ok = s.ok /\ (StepOf(r) = "pdf-lines" \/ p.v.acts \subseteq s.found)]
Written(s) == SelectSeq(s.out, LAMBDA x : x[1] # "")
(* the output directory: a sequence of <<file, what>>, by the time they were first written *)
RECURSIVE Into(_, _, _, _)
Into(files, ext, out, n) ==
    IF n > Len(out) THEN files
    ELSE LET f == out[n][1] \o ext
             at == {q \in 1..Len(files) : files[q][1] = f}
         IN Into(IF at = {} THEN Append(files, <<f, out[n][2]>>) ELSE [files EXCEPT ![CHOOSE q \in at : TRUE] = <<f, out[n][2]>>], ext, out, n + 1)
FilesAfter(files, r, s) == IF r.out = "dir" THEN Into(files, Ext(r), Written(s), 1) ELSE files

-----------------------------------------------------------------------------
(* recorded runs: o.code; o.files: <<file, the things it may be>>; o.said: what went to the standard output, *)
(* each [name, is: <<what, is it followed by something>>]; o.lead: whether something came before; o.other: other files touched *)
Fresh(w) == [q \in 1..Len(w.issues) |-> [z \in 1..Len(w.issues[q].acts) |-> 0]]
SeenAs(x, what) == what \in Range(x)
FilesOk(files, seen) ==
    /\ Len(files) = Len(seen)
    /\ \A q \in 1..Len(files) : \E z \in 1..Len(seen) : seen[z].n = files[q][1] /\ SeenAs(seen[z].is, files[q][2])
Errors(out, n) == IF n > Len(out) \/ out[n][1] # "" THEN FALSE ELSE TRUE       (* an error message may come at n *)
Places(out) == {q \in 1..Len(out) : out[q][1] # ""}
SaidOk(out, o) ==
    LET ps == SetToSortSeq(Places(out), <)
    IN /\ Len(o.said) = Len(ps)
       /\ o.lead => (out # <<>> /\ out[1][1] = "")
       /\ \A q \in 1..Len(ps) : LET x == out[ps[q]] y == o.said[q]
              IN /\ y.n = x[1]
                 /\ \E z \in 1..Len(y.is) : /\ y.is[z][1] = x[2]
                                            /\ y.is[z][2] = "more" => Errors(out, ps[q] + 1)
RunOk(w, done, files, r, o) ==
    LET s == TLCEval(RunOf(w, done, r))
    IN /\ o.code = IF s.ok THEN 0 ELSE 1
       /\ FilesOk(FilesAfter(files, r, s), o.files)
       /\ IF r.out = "" THEN SaidOk(s.out, o) ELSE o.said = <<>>
       /\ o.other = <<>>
RECURSIVE JudgeRuns(_, _, _, _, _, _)
JudgeRuns(w, done, files, rs, os, n) ==
    IF n > Len(rs) THEN <<>>
    ELSE IF ~RunOk(w, done, files, rs[n], os[n].b[1]) THEN <<n, 1>>
    ELSE LET s == TLCEval(RunOf(w, done, rs[n]))
         IN JudgeRuns(w, s.done, TLCEval(FilesAfter(files, rs[n], s)), rs, os, n + 1)
RunsVerdict(x) == JudgeRuns(x.i.w, Fresh(x.i.w), <<>>, x.i.runs, x.o, 1)
=============================================================================
