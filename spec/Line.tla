-------------------------------- MODULE Line --------------------------------
(***************************************************************************)
(* Positioned lines of text: a sequence of characters, each with its        *)
(* distance from the previous one (the first one's is the indentation) and  *)
(* a bold flag, and whether the line is justified to the right margin.      *)
(* Distances are integers here (the harness scales them).                   *)
(***************************************************************************)
EXTENDS Text

Ln(parts, j) == [p |-> parts, j |-> j]
Pc(dx, c, b) == [dx |-> dx, c |-> c, b |-> b]
Empty == Ln(<<>>, FALSE)
LLen(l) == Len(l.p)
LText(l) == StrOf([i \in 1..LLen(l) |-> l.p[i].c])
LBold(l) == 3 * Cardinality({i \in 1..LLen(l) : l.p[i].b}) > 2 * LLen(l)
LIndent(l) == IF l.p = <<>> THEN 0 ELSE l.p[1].dx
RECURSIVE SumDx(_, _)
SumDx(ps, n) == IF n = 0 THEN 0 ELSE ps[n].dx + SumDx(ps, n - 1)

(* Python-like indices: negative ones count from the end; clamped *)
Index(l, i) == LET k == IF i >= 0 THEN i ELSE LLen(l) + i IN Max2(0, Min2(LLen(l), k))
IndentAt(l, i) == SumDx(l.p, Min2(LLen(l), Index(l, i) + 1))
(* characters from..to-1 keep their positions on the page *)
SliceLn(l, from, to) ==
    LET f == Index(l, from)
        t == IF to = <<>> THEN LLen(l) ELSE Index(l, to[1])
    IN IF t <= f THEN Empty
       ELSE Ln([i \in 1..(t - f) |-> IF i = 1 THEN [l.p[f + 1] EXCEPT !.dx = SumDx(l.p, f + 1)] ELSE l.p[f + i]],
               l.j /\ t = LLen(l))
(* lines of the same page row, put together: every character keeps its position *)
RECURSIVE Concat(_, _, _)
Concat(ls, n, x) ==
    IF n > Len(ls) THEN <<>>
    ELSE LET q == ls[n].p
         IN IF q = <<>> THEN Concat(ls, n + 1, x)
            ELSE [i \in 1..Len(q) |-> IF i = 1 THEN [q[1] EXCEPT !.dx = q[1].dx - x] ELSE q[i]]
                 \o Concat(ls, n + 1, SumDx(q, Len(q)))
Multi(ls) ==
    LET ne == {n \in 1..Len(ls) : ls[n].p # <<>>}
    IN Ln(Concat(ls, 1, 0), IF ne = {} THEN FALSE ELSE ls[CHOOSE n \in ne : \A m \in ne : m <= n].j)
AsBold(l) == [l EXCEPT !.p = [i \in 1..LLen(l) |-> [l.p[i] EXCEPT !.b = TRUE]]]
LEq(a, b) == LIndent(a) = LIndent(b) /\ LText(a) = LText(b) /\ LBold(a) = LBold(b)

(* a line written for tests: every character takes five points, runs of spaces are one character with a longer way after it *)
RECURSIVE Replaced(_, _, _)
Replaced(s, p, q) == LET k == FindStr(s, p, 1) IN IF k = 0 THEN s ELSE Take(s, k - 1) \o q \o Replaced(Drop(s, k - 1 + Len(p)), p, q)
RECURSIVE TestGo(_, _, _, _, _)
TestGo(s, n, sp, b, w) ==
    IF n > Len(s) THEN <<>>
    ELSE IF Chr(s, n) = " " THEN (IF sp = 0 THEN <<Pc(w, " ", b)>> ELSE <<>>) \o TestGo(s, n + 1, sp + 1, b, w)
    ELSE <<Pc(w + w * sp, Chr(s, n), b)>> \o TestGo(s, n + 1, 0, b, w)
TestLine(s, w) ==
    LET b == FindStr(s, "<BOLD>", 1) > 0
    IN Ln(TestGo(Replaced(Replaced(s, "<BOLD>", "      "), "<NJ>", "    "), 1, 1, b, w), FindStr(s, "<NJ>", 1) = 0)

-----------------------------------------------------------------------------
(* putting consecutive lines of a paragraph together *)
JoinTo(s, t) ==
    IF t = "" THEN s
    ELSE IF s = "" THEN t
    ELSE IF EndsWith(s, "-") /\ ~(StartsWith(t, "és ") \/ StartsWith(t, "vagy ")) THEN s \o t
    ELSE s \o " " \o t
RECURSIVE JoinGo(_, _, _)
JoinGo(s, ts, n) == IF n > Len(ts) THEN s ELSE JoinGo(JoinTo(s, ts[n]), ts, n + 1)
JoinAll(ts) == JoinGo("", ts, 1)

-----------------------------------------------------------------------------
(* quoting: the level after a line, and whether lines begin and end inside *)
OpenQ == {"„", "“"}
CloseQ == {"”"}
QDelta(t) == CountIn(t, OpenQ) - CountIn(t, CloseQ)
RECURSIVE QuoteGo(_, _, _)
QuoteGo(ts, n, lvl) ==
    IF n > Len(ts) THEN <<>>
    ELSE LET l2 == lvl + QDelta(ts[n])
         IN <<[ok |-> l2 >= 0, b |-> lvl > 0, e |-> l2 > 0, lvl |-> l2]>> \o QuoteGo(ts, n + 1, l2)
RECURSIVE SumQ(_, _)
SumQ(ts, n) == IF n = 0 THEN 0 ELSE QDelta(ts[n]) + SumQ(ts, n - 1)

-----------------------------------------------------------------------------
LView(l) == [c |-> LText(l), ind |-> LIndent(l), bold |-> LBold(l), just |-> l.j, len |-> LLen(l), empty |-> LLen(l) = 0,
             at |-> [i \in 1..(LLen(l) + 4) |-> IndentAt(l, i - 3)]]
LStep(regs, i) ==
    CASE i.o = "line" -> Ln([q \in 1..Len(i.p) |-> Pc(i.p[q][1], i.p[q][2], i.p[q][3] = 1)], i.j)
      [] i.o = "slice" -> SliceLn(regs[i.r], i.from, i.to)
      [] i.o = "bytes" -> SliceLn(regs[i.r], i.from, i.to)
      [] i.o = "multi" -> Multi([q \in 1..Len(i.rs) |-> regs[i.rs[q]]])
      [] i.o = "bold" -> AsBold(regs[i.r])
      [] i.o = "text" -> TestLine(i.s, i.w)
      [] i.o = "empty" -> Empty
RECURSIVE LRun(_, _, _)
LRun(regs, prog, n) == IF n > Len(prog) THEN regs ELSE LRun(Append(regs, LStep(regs, prog[n])), prog, n + 1)
LineExpected(i) ==
    CASE i.op = "lprog" ->
           LET regs == TLCEval(LRun(<<>>, i.prog, 1))
           IN [r |-> "ok", v |-> [q \in 1..Len(regs) |->
                  [w |-> LView(regs[q]), eq |-> [z \in 1..q |-> IF LEq(regs[q], regs[z]) THEN 1 ELSE 0],
                   leq |-> [z \in 1..q |-> IF LIndent(regs[q]) < LIndent(regs[z]) + i.unit THEN 1 ELSE 0]]]]
      [] i.op = "join" -> [r |-> "ok", v |-> [q \in 1..Len(i.ts) |-> JoinGo("", SubSeq(i.ts, 1, q), 1)]]
      [] i.op = "quote" ->
           LET v == QuoteGo(i.ts, 1, 0)
               bad == {n \in 1..Len(v) : ~v[n].ok}
               upto == IF bad = {} THEN Len(v) ELSE CHOOSE n \in bad : \A m \in bad : n <= m
           IN [r |-> "ok", v |-> [steps |-> SubSeq(v, 1, upto), end |-> bad = {} /\ SumQ(i.ts, Len(i.ts)) = 0]]
NoSpaces(s) == SelectSeq(Chars(s), LAMBDA c : c # " ")
(* joining keeps all characters in order, adds at most one space per line *)
JoinLaws(ts) ==
    LET j == JoinAll(ts)
        k == SelectSeq(ts, LAMBDA t : t # "")
    IN /\ NoSpaces(j) = NoSpaces(StrOf(ts))
       /\ CountIn(j, {" "}) - CountIn(StrOf(ts), {" "}) <= Len(k)
LineLaws(i) ==
    /\ i.op = "join" => JoinLaws(i.ts)
    /\ i.op = "lprog" =>
      LET regs == TLCEval(LRun(<<>>, i.prog, 1))
      IN \A q \in 1..Len(regs) : \A s \in 0..LLen(regs[q]) :
           LET l == regs[q] IN
           /\ LET w == Multi(<<SliceLn(l, 0, <<s>>), SliceLn(l, s, <<>>)>>) IN w.p = l.p /\ (l.p # <<>> => w.j = (l.j))
           /\ s < LLen(l) => LIndent(SliceLn(l, s, <<>>)) = IndentAt(l, s)
=============================================================================
