------------------------------- MODULE MC_Runs ------------------------------
(***************************************************************************)
(* All histories of runs over a small world, with what they leave in the    *)
(* output directory and the corrections made in them.                       *)
(***************************************************************************)
EXTENDS Runs, Json
CONSTANTS Vocab, MaxRuns
VARIABLES done, files, runs, last
Vars == <<done, files, runs, last>>
A(y, n, bad, stuck) == [y |-> y, n |-> n, bad |-> bad, stuck |-> stuck]
World == [issues |-> <<[y |-> 2011, n |-> 71, at |-> "cache", st |-> "ok", acts |-> <<A(2011, 80, <<>>, FALSE), A(2011, 81, <<"q">>, FALSE), A(2011, 82, <<"s", "c">>, FALSE)>>],
                       [y |-> 2010, n |-> 90, at |-> "cache", st |-> "ok", acts |-> <<A(2010, 9, <<>>, TRUE), A(2010, 10, <<>>, FALSE)>>],
                       [y |-> 2011, n |-> 9, at |-> "cache", st |-> "cut", acts |-> <<A(2011, 1, <<>>, FALSE)>>],
                       [y |-> 2011, n |-> 10, at |-> "alt", st |-> "nodate", acts |-> <<A(2011, 2, <<>>, FALSE)>>]>>,
          csv |-> [st |-> "ok", rows |-> <<[i |-> "2010/90", a |-> "2010/9"], [i |-> "2010/90", a |-> "2010. évi X. törvény"], [i |-> "2011/9", a |-> "2011/1"],
                                           [i |-> "2011/10", a |-> "2011/2"], [i |-> "2011/71", a |-> "2011/80"], [i |-> "2011/71", a |-> "2011/81"],
                                           [i |-> "2011/71", a |-> "2011/82"], [i |-> "2011/9", a |-> "2011/80"], [i |-> "2011/71", a |-> "2011/83"]>>]]
R(ids, mk, step, fmt, out) == [ids |-> ids, mk |-> mk, step |-> step, fmt |-> fmt, w |-> 0, out |-> out, cache |-> "", ia |-> FALSE, ans |-> <<>>, plan |-> <<>>]
I(r, ans, plan) == [r EXCEPT !.ia = TRUE, !.ans = ans, !.plan = plan]
VocabAll == <<R(<<"2011/80", "2010/10">>, FALSE, "", "", "dir"), R(<<"2011/81", "2011/80">>, FALSE, "structure", "txt", "dir"),
              R(<<"2011/1", "2011/80">>, FALSE, "act-lines", "json", "dir"), R(<<"2011/82">>, FALSE, "", "yml", "dir"),
              R(<<"2010/9", "2010. évi X. törvény">>, FALSE, "act-lines", "test-plain", "dir"), R(<<"2011/71", "2010/90">>, TRUE, "structure", "json", ""),
              R(<<"2011/9", "2011/71">>, TRUE, "pdf-lines", "", "dir"), R(<<"2011/80", "rossz">>, FALSE, "", "", "dir"), R(<<"2011/83", "2011/80">>, FALSE, "", "", "dir"),
              R(<<"2011/84">>, FALSE, "", "", "dir"), R(<<"2011/71">>, TRUE, "structure", "plain", ""), R(<<"2011/80">>, FALSE, "", "", "missing"),
              [R(<<"2011/10">>, TRUE, "pdf-lines", "plain", "dir") EXCEPT !.cache = "alt"], [R(<<"2011/2">>, FALSE, "", "", "dir") EXCEPT !.cache = "alt"],
              I(R(<<"2011/81", "2011/82">>, FALSE, "", "", "dir"), <<"y", "y", "", "n">>, <<"fix", "fix", "none">>),
              I(R(<<"2011/71">>, TRUE, "structure", "json", "dir"), <<"Yes">>, <<"fix">>), I(R(<<"2011/81">>, FALSE, "", "", ""), <<>>, <<>>),
              I(R(<<"2011/82", "2010/9">>, FALSE, "", "", "dir"), <<"y", "y", "y">>, <<"fix", "fix", "fix">>),
              I(R(<<"2011/71">>, TRUE, "", "", "dir"), <<"y", "y">>, <<"cut", "fix">>)>>
VocabFew == <<VocabAll[1], VocabAll[2], VocabAll[4], VocabAll[6], VocabAll[15], VocabAll[18]>>
Init == done = Fresh(World) /\ files = <<>> /\ runs = <<>> /\ last = <<>>
Next == /\ Len(runs) < MaxRuns
        /\ \E q \in 1..Len(Vocab) :
             LET r == Vocab[q] s == RunOf(World, done, r)
             IN /\ done' = s.done
                /\ files' = FilesAfter(files, r, s)
                /\ runs' = Append(runs, r)
                /\ last' = <<s>>
Final == runs # <<>>
R1 == runs[Len(runs)]
Acts == UNION {{World.issues[q].acts[z] : z \in 1..Len(World.issues[q].acts)} : q \in 1..Len(World.issues)}
DoneOf(a, d) == LET q == CHOOSE q \in 1..Len(World.issues) : a \in Range(World.issues[q].acts)
                IN d[q][CHOOSE z \in 1..Len(World.issues[q].acts) : World.issues[q].acts[z] = a]
(* a successful run wrote everything it was asked for, from the lines corrected so far, and nothing else *)
P == Plan(World, R1)
Success == Final /\ last[1].ok /\ StepOf(R1) # "pdf-lines" =>
    /\ IsOk(P)
    /\ \A a \in Acts : (P.v.acts # {} /\ Act(a.y, a.n) \in P.v.acts) \/ (P.v.acts = {} /\ \E q \in 1..Len(P.v.issues) : \E z \in Find(World, P.v.issues[q][1], P.v.issues[q][2], R1) : a \in Range(World.issues[z].acts))
          <=> \E q \in 1..Len(last[1].out) : last[1].out[q][1] = Name(a) /\ last[1].out[q][2] = OfAct(a, R1, DoneOf(a, done))
(* whether an act is read does not depend on what else was asked for (nobody being asked for corrections) *)
Alone == Final /\ ~R1.mk /\ ~R1.ia /\ IsOk(P) => \A q \in 1..Len(R1.ids) :
    LET s == RunOf(World, done, [R1 EXCEPT !.ids = <<R1.ids[q]>>])
    IN \A z \in 1..Len(s.out) : s.out[z][1] # "" => \E x \in 1..Len(last[1].out) : last[1].out[x] = s.out[z]
NoneIfRefused == Final /\ (~Understood(R1) \/ ~IsOk(P)) => last[1].out = <<>> /\ ~last[1].ok
(* no corrections are lost; files are never removed *)
Grows == [][/\ \A q \in DOMAIN done : \A z \in DOMAIN done[q] : done'[q][z] >= done[q][z]
            /\ \A q \in 1..Len(files) : files'[q][1] = files[q][1]]_Vars
OnlyAsked == [][\A q \in 1..Len(files) : files'[q] # files[q] => \E x \in Range(Written(last'[1])) : x[1] \o Ext(runs'[Len(runs')]) = files[q][1]]_Vars
Emit == Len(runs) < MaxRuns \/ PrintT("@@" \o ToJson([i |-> [w |-> World, runs |-> runs]]))
=============================================================================
