------------------------------- MODULE Fixup --------------------------------
(***************************************************************************)
(* Corrections of the lines of an act: one replaces the single line that    *)
(* stands after given lines.  What is common with the old text keeps its    *)
(* place; the rest is spread between.                                       *)
(* Lengths are in 1/20160 point, so that halves and tenths are whole; the    *)
(* input gives quarters of a point.                                         *)
(***************************************************************************)
EXTENDS Line
Pt == 20160
Quarter == 5040
Wide == 10 * Pt
Fx(after, old, new, bold) == [after |-> after, old |-> old, new |-> new, bold |-> bold]

RECURSIVE CommonHead(_, _, _), CommonTail(_, _, _)
CommonHead(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ Chr(a, n + 1) = Chr(b, n + 1) THEN CommonHead(a, b, n + 1) ELSE n
CommonTail(a, b, n) == IF n < Len(a) /\ n < Len(b) /\ Chr(a, Len(a) - n) = Chr(b, Len(b) - n) THEN CommonTail(a, b, n + 1) ELSE n
Sub(s, a, b) == IF a > b THEN "" ELSE SubSeq(s, a, b)

(* the corrected line *)
Corrected(l, f) ==
    IF f.old = f.new /\ ~f.bold THEN Err
    ELSE IF f.new = "" THEN Ok(Empty)
    ELSE
    LET n == LLen(l)
        h == CommonHead(f.old, f.new, 0)
        t == CommonTail(Sub(f.old, h + 1, Len(f.old)), Sub(f.new, h + 1, Len(f.new)), 0)
        m == Len(f.new) - h - t                          (* characters put in *)
        last == IndentAt(l, n)
        tail == IndentAt(l, 0 - t)                       (* where the common tail begins *)
        from == IF h >= n THEN last + Wide \div 2
                ELSE IF h > 0 THEN (IF t > 0 /\ h + t >= n THEN (IndentAt(l, h - 1) + IndentAt(l, h)) \div 2 ELSE IndentAt(l, h))
                ELSE IF t > 0 THEN tail - Wide
                ELSE LIndent(l)
        to == IF t > 0 THEN tail ELSE IF h > 0 THEN last + Wide ELSE IF n = 0 THEN Wide ELSE last
        put == Ln([q \in 1..m |-> Pc(IF q = 1 THEN from ELSE (to - from) \div m, Chr(f.new, h + q), LBold(l))], FALSE)
        r == Multi(<<SliceLn(l, 0, <<h>>), put, IF t = 0 THEN Empty ELSE SliceLn(l, 0 - t, <<>>)>>)
    IN IF m > 0 /\ ((to - from) % m # 0 \/ (h > 0 /\ h < n /\ (IndentAt(l, h - 1) + IndentAt(l, h)) % 2 # 0))
       THEN [r |-> "skip"]    (* not a whole number of our units *)
       ELSE Ok(IF f.bold THEN AsBold(r) ELSE r)

(* the places where the lines and the text before stand *)
Places(ts, f) ==
    LET a == Len(f.after)
    IN {q \in (a + 1)..Len(ts) : ts[q] = f.old /\ \A z \in 1..a : ts[q - a - 1 + z] = f.after[z]}
Apply1(ls, f) ==
    LET ps == Places([q \in 1..Len(ls) |-> LText(ls[q])], f)
    IN IF Cardinality(ps) # 1 THEN Err
       ELSE LET p == CHOOSE q \in ps : TRUE c == Corrected(ls[p], f) IN IF IsOk(c) THEN Ok([ls EXCEPT ![p] = c.v]) ELSE c
RECURSIVE ApplyAll(_, _, _)
ApplyAll(ls, fs, n) ==
    IF n > Len(fs) THEN Ok(ls) ELSE LET r == TLCEval(Apply1(ls, fs[n])) IN IF IsOk(r) THEN ApplyAll(r.v, fs, n + 1) ELSE r

-----------------------------------------------------------------------------
FLine(x) == Ln([q \in 1..Len(x.p) |-> Pc(x.p[q][1] * Quarter, x.p[q][2], x.p[q][3] = 1)], x.j)
FFix(x) == Fx(x.after, x.old, x.new, x.bold)
FView(l) == [t |-> LText(l), at |-> [q \in 1..LLen(l) |-> IndentAt(l, q - 1)], b |-> [q \in 1..LLen(l) |-> IF l.p[q].b THEN 1 ELSE 0], j |-> l.j]
FLines(i) == [q \in 1..Len(i.ls) |-> FLine(i.ls[q])]
FFixes(i) == [q \in 1..Len(i.fs) |-> FFix(i.fs[q])]
FixupExpected(i) ==
    LET r == TLCEval(ApplyAll(TLCEval(FLines(i)), FFixes(i), 1))
    IN IF IsOk(r) THEN Ok([q \in 1..Len(r.v) |-> FView(r.v[q])]) ELSE r
(* an applied correction changes one line, to the new text; its common parts stay where they were, and characters never go backwards *)
Forward(l) == \A q \in 2..LLen(l) : l.p[q].dx >= 0
OneLaw(ls, f) ==
    LET r == Apply1(ls, f)
    IN IsOk(r) =>
       LET d == {q \in 1..Len(ls) : LText(r.v[q]) # LText(ls[q])}
           p == CHOOSE q \in Places([q \in 1..Len(ls) |-> LText(ls[q])], f) : TRUE
           h == CommonHead(f.old, f.new, 0)
           t == CommonTail(Sub(f.old, h + 1, Len(f.old)), Sub(f.new, h + 1, Len(f.new)), 0)
       IN /\ Len(r.v) = Len(ls) /\ LText(r.v[p]) = f.new
          /\ \A q \in 1..Len(ls) : q # p => r.v[q] = ls[q]
          /\ \A q \in 1..h : IndentAt(r.v[p], q - 1) = IndentAt(ls[p], q - 1)
          /\ \A q \in 1..t : IndentAt(r.v[p], 0 - q) = IndentAt(ls[p], 0 - q)
          /\ Forward(ls[p]) => Forward(r.v[p])
          /\ f.bold /\ f.new # "" => LBold(r.v[p])
RECURSIVE LawsFrom(_, _, _)
LawsFrom(ls, fs, n) ==
    n > Len(fs) \/ (OneLaw(ls, fs[n]) /\ LET r == TLCEval(Apply1(ls, fs[n])) IN IsOk(r) => LawsFrom(r.v, fs, n + 1))
FixupLaws(i) == LawsFrom(TLCEval(FLines(i)), FFixes(i), 1)
=============================================================================
