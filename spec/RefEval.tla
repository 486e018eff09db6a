------------------------------ MODULE RefEval -------------------------------
(* A little machine with one builder and two reference registers; programs   *)
(* of its instructions are construction histories of references.             *)
EXTENDS Ref

R0 == [b |-> NoRef, r |-> NoRef, s |-> NoRef, out |-> "____", ok |-> TRUE]
Put(m, x) == IF IsOk(x) THEN [m EXCEPT !.r = x.v, !.out = RefCompact(x.v), !.ok = TRUE]
             ELSE [m EXCEPT !.out = "ERR", !.ok = FALSE]
LevelIx(l) == CHOOSE i \in 1..5 : Levels[i] = l
Step(m, i) ==
    CASE i.o = "set" -> [m EXCEPT !.b = BSet(m.b, LevelIx(i.l), PartOf(LevelIx(i.l), i.v).v), !.out = "-"]
      [] i.o = "reset" -> [m EXCEPT !.b = BReset(m.b, LevelIx(i.l)), !.out = "-"]
      [] i.o = "build" -> Put(m, Check(m.b))
      [] i.o = "compact" -> Put(m, RefParse(i.v))
      [] i.o = "serde" -> Put(m, FromParts(i.v))
      [] i.o = "save" -> [m EXCEPT !.s = m.r, !.out = "-"]
      [] i.o = "swap" -> [m EXCEPT !.s = m.r, !.r = m.s, !.out = RefCompact(m.s)]
      [] i.o = "parent" -> Put(m, Ok(ParentOf(m.r)))
      [] i.o = "noact" -> Put(m, Ok(WithoutAct(m.r)))
      [] i.o = "first" -> Put(m, Ok(FirstIn(m.r)))
      [] i.o = "last" -> Put(m, Ok(LastIn(m.r)))
      [] i.o = "rel" -> Put(m, RelativeTo(m.r, m.s))
      [] i.o = "range" -> Put(m, MakeRange(m.r, m.s))
      [] i.o = "act" -> Put(m, Ok([NoRef EXCEPT ![1] = <<PartOf(1, i.v).v>>]))
      [] i.o = "art" -> Put(m, Ok([NoRef EXCEPT ![2] = <<PartOf(2, i.v).v>>]))
      [] i.o = "actart" -> Put(m, Ok([NoRef EXCEPT ![1] = <<PartOf(1, i.v).v>>, ![2] = <<PartOf(2, i.w).v>>]))
RECURSIVE RunProg(_, _, _)
RunProg(m, prog, n) == IF n > Len(prog) THEN <<>>
                       ELSE LET k == Step(m, prog[n]) IN <<k.out>> \o RunProg(k, prog, n + 1)
RECURSIVE FinalOf(_, _, _)
FinalOf(m, prog, n) == IF n > Len(prog) THEN m ELSE FinalOf(Step(m, prog[n]), prog, n + 1)

LastPartView(r) ==
    LET l == LastLevel(r)
    IN IF l = 0 THEN "empty" ELSE Levels[l] \o ":" \o r[l][1].t \o ":" \o PartCompact(r[l])
OneRef(r) ==
    [c |-> RefCompact(r), d |-> RefStr(r), valid |-> TRUE, last |-> LastPartView(r), actonly |-> ~Present(r, 2),
     act |-> PartCompact(r[1]), art |-> PartCompact(r[2]),
     fields |-> [l \in 1..5 |-> PartCompact(r[l])],
     back |-> <<TRUE, TRUE, TRUE>>,
     parent |-> RefCompact(ParentOf(r)), noact |-> RefCompact(WithoutAct(r)),
     first |-> RefCompact(FirstIn(r)), lastin |-> RefCompact(LastIn(r))]
B(x) == IF x THEN 1 ELSE 0
ParseAll(ss) == LET f == [q \in 1..Len(ss) |-> RefParse(ss[q]).v] IN TLCEval(f)
RowView(a, bs) ==
    [r |-> "ok",
     v |-> [q \in 1..Len(bs) |->
              LET b == bs[q]
              IN [o |-> <<RefCmp(a, b), B(a = b), B(AncestorOf(a, b)), B(Covers(a, b))>>,
                  rel |-> ResC(RelativeTo(a, b)), rng |-> ResC(MakeRange(a, b))]]]
RowLaws(a, bs) ==
    \A q \in 1..Len(bs) :
        LET b == bs[q]
        IN /\ RefCmp(a, b) = 0 - RefCmp(b, a)
           /\ AncestorOf(a, b) => Covers(a, b) /\ RefCmp(a, b) < 0 /\ ~AncestorOf(b, a)
           /\ Covers(a, b) /\ Covers(b, a) => a = b
           /\ Covers(a, a)
           /\ LET x == RelativeTo(a, b) IN IsOk(x) => Valid(x.v) /\ RelativeTo(a, x.v) = x
           /\ LET x == MakeRange(a, b)
              IN IsOk(x) /\ Forward(x.v) => Covers(x.v, FirstIn(a)) /\ Covers(x.v, LastIn(b))
(* what a program shows: every step, the reference it ends with, and what    *)
(* its builder would build then                                              *)
ProgView(prog) ==
    LET k == FinalOf(R0, prog, 1)
    IN [r |-> "ok", v |-> [out |-> RunProg(R0, prog, 1), fin |-> OneRef(k.r), built |-> ResC(Check(k.b))]]
RefExpected(i) ==
    CASE i.op = "prog" -> ProgView(i.prog)
      [] i.op = "one" -> LET p == RefParse(i.s) IN IF IsOk(p) THEN [r |-> "ok", v |-> OneRef(p.v)] ELSE Err
      [] i.op = "serde" -> LET p == FromParts(i.v) IN IF IsOk(p) THEN [r |-> "ok", v |-> OneRef(p.v)] ELSE Err
      [] i.op = "row" -> RowView(RefParse(i.a).v, ParseAll(i.bs))
(* laws *)
RefLaws(i) ==
    CASE i.op = "one" -> LET p == RefParse(i.s) IN IsOk(p) => Valid(p.v) /\ RefParse(RefCompact(p.v)) = p
      [] i.op = "row" -> RowLaws(RefParse(i.a).v, ParseAll(i.bs))
      [] OTHER -> TRUE
=============================================================================
