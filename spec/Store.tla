------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* What lasts between runs, under crashes, failing writes and other         *)
(* processes: the corrections recorded for each act, and the issues kept    *)
(* after they were downloaded.                                              *)
(* An operation says what may be on disk after it, given how it ended.      *)
(* Corrections: a list per act; saving appends.  Issues: 0, or the version  *)
(* that was kept (the n-th answer of the publisher is version n).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Stops == {"crash", "partial"}
Twice == {"fail1", "fail2"}       (* one change fails, and one of the next ends the process *)
(* how an operation may end, if it was disturbed (hit) this way or not *)
SaveEnds(hit, how) == IF ~hit THEN {"done"} ELSE IF how \in Stops THEN {"crash"} ELSE (IF how \in Twice THEN {"crash"} ELSE {}) \cup {"done", "error"}
(* what may then be stored *)
AfterSave(old, add, end) == IF end = "done" THEN {old \o add} ELSE {old, old \o add}

Complete == {"ok", "chunked", "close"}            (* the publisher sends the whole issue *)
GetEnds(hit, how, old, srv) ==
    IF ~hit THEN {IF old # 0 \/ srv \in Complete THEN "done" ELSE "error"}
    ELSE IF how \in Stops THEN {"crash"}
    ELSE (IF how \in Twice THEN {"crash"} ELSE {}) \cup (IF old # 0 \/ srv \in Complete THEN {"done", "error"} ELSE {"error"})
(* v: the version the publisher sends now; an interrupted or failed attempt keeps all of it or nothing *)
AfterGet(hit, old, srv, v) ==
    IF old # 0 THEN {old}
    ELSE IF srv \notin Complete THEN {0}
    ELSE IF hit THEN {0, v} ELSE {v}
Answer(old, v) == IF old # 0 THEN old ELSE v

Dig(n) == ToString(n)
Pad(n, w) == LET RECURSIVE Go(_) Go(s) == IF Len(s) >= w THEN s ELSE Go("0" \o s) IN Go(Dig(n))
PathOf(iss) == "/nkonline/MKPDF/hiteles/MK" \o Pad(iss[1] % 100, 2) \o Pad(iss[2], 3) \o ".pdf"

-----------------------------------------------------------------------------
(* recorded histories: i.steps[n] was carried out, o[n].b are the branches seen (disturbed at each point), *)
(* the history went on after branch o[n].kept                                                             *)
Sees(all, st, x, a, may) ==
    /\ \A q \in 1..Len(all) : x[q].ok
    /\ x[a].v \in may
    /\ \A q \in 1..Len(all) : q # a => x[q].v = st[q]
Vals(x) == [q \in 1..Len(x) |-> x[q].v]

SaveOk(all, st, s, b, how) ==
    /\ b.out \in SaveEnds(b.hit, how)
    /\ Sees(all, st, b.seen, s.a, AfterSave(st[s.a], s.add, b.out))
RightAsked(iss, asked) == \A q \in 1..Len(asked) : asked[q] = [m |-> "GET", path |-> PathOf(iss), host |-> "www.kozlonyok.hu"]
GetOk(all, st, s, b, how, srv) ==
    LET old == st[s.a] v == b.before + Len(b.asked)
    IN /\ b.out \in GetEnds(b.hit, how, old, srv)
       /\ RightAsked(all[s.a], b.asked)
       /\ old # 0 => b.asked = <<>>
       /\ old = 0 /\ ~b.hit /\ srv \in Complete => Len(b.asked) = 1
       /\ b.got = IF b.out = "done" THEN Answer(old, v) ELSE 0
       /\ Sees(all, st, b.seen, s.a, AfterGet(b.hit, old, srv, v))
OpOk(kind, all, st, s, b, how, srv) == IF kind = "fixups" THEN SaveOk(all, st, s, b, how) ELSE GetOk(all, st, s, b, how, srv)

(* two at once, the first waiting somewhere while the second is carried out *)
Ways(old, a, b) == {old \o a, old \o b, old \o a \o b, old \o b \o a}
RaceOk(kind, all, st, s, b) ==
    LET old == st[s.a] sent == (b.before + 1)..b.after
    IN /\ b.outa = "done" /\ b.outb = "done"
       /\ IF kind = "fixups"
          THEN /\ Sees(all, st, b.mid, s.a, {old} \cup Ways(old, s.add, s.other.add))
               /\ Sees(all, st, b.seen, s.a, IF b.hit THEN Ways(old, s.add, s.other.add) ELSE {old \o s.add \o s.other.add})
          ELSE /\ {b.gota, b.gotb} \subseteq (IF old # 0 THEN {old} ELSE sent)
               /\ Sees(all, st, b.mid, s.a, IF old # 0 THEN {old} ELSE IF b.hit THEN sent \cup {0} ELSE {b.gota})
               /\ Sees(all, st, b.seen, s.a, IF old # 0 THEN {old} ELSE IF b.hit THEN {b.gota, b.gotb} ELSE {b.gota})

BranchOk(kind, all, st, s, b) ==
    IF s.how = "pause" THEN RaceOk(kind, all, st, s, b)
    ELSE /\ OpOk(kind, all, st, s, b, s.how, IF kind = "fixups" THEN "ok" ELSE s.srv)
         /\ b.hit => OpOk(kind, all, Vals(b.seen), s, b.again, "none", "ok")
StateAfter(s, b) == Vals(IF s.how # "none" /\ s.how # "pause" /\ b.hit THEN b.again.seen ELSE b.seen)
(* the first step (and branch) the specification does not allow; <<>> if there is none *)
RECURSIVE Judge(_, _, _, _, _, _)
Judge(kind, all, st, ss, os, n) ==
    IF n > Len(ss) THEN <<>>
    ELSE LET wrong == {q \in 1..Len(os[n].b) : ~BranchOk(kind, all, st, ss[n], os[n].b[q])}
         IN IF wrong # {} THEN <<n, CHOOSE q \in wrong : \A z \in wrong : q <= z>>
            ELSE Judge(kind, all, TLCEval(StateAfter(ss[n], os[n].b[os[n].kept])), ss, os, n + 1)
Verdict(x) == Judge(x.i.kind, x.i.all, [q \in 1..Len(x.i.all) |-> IF x.i.kind = "fixups" THEN <<>> ELSE 0], x.i.steps, x.o, 1)
=============================================================================
