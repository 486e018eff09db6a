----------------------------- MODULE IdentEval ------------------------------
(* The expected observation for each operation of the identifier interface. *)
EXTENDS Ident

ActDispBack(a) == IsOk(ToRoman(a.n)) /\ a.y >= 1000 /\ a.y <= 9999
OneView(t, a) ==
    [d |-> Str(t, a), c |-> Compact(t, a),
     back |-> [disp |-> (t = "act" => ActDispBack(a)), compact |-> TRUE, json |-> TRUE, yaml |-> TRUE],
     j |-> IF t = "act" THEN ActCompact(a) ELSE Str(t, a),
     first |-> IF t = "act" THEN FALSE ELSE First(t, a),
     empty |-> t = "para" /\ a = NoPara,
     up |-> IF t = "letter" THEN LetterUpper(a) ELSE IF t = "num" THEN NumSlash(a) ELSE "",
     rom |-> IF t = "num" THEN NumRoman(a) ELSE Err,
     hun |-> IF t = "num" THEN NumHun(a) ELSE Err]
View(t, p) == IF IsOk(p) THEN [r |-> "ok", v |-> OneView(t, p.v)] ELSE Err

RangeView(t, s, e) ==
    [isr |-> s # e, first |-> Str(t, s), last |-> Str(t, e),
     c |-> Compact(t, s) \o (IF s # e THEN "-" \o Compact(t, e) ELSE ""), back |-> TRUE, jback |-> TRUE]
ParseRangeCompact(t, s) ==
    LET p == FindChar(s, "-", 1)
    IN IF p = 0 THEN LET a == ParseCompact(t, s) IN IF IsOk(a) THEN Ok(<<a.v, a.v>>) ELSE Err
       ELSE LET a == ParseCompact(t, Take(s, p - 1)) b == ParseCompact(t, Drop(s, p))
            IN IF IsOk(a) /\ IsOk(b) THEN Ok(<<a.v, b.v>>) ELSE Err

IdentExpected(i) ==
    CASE i.op = "one" -> View(i.t, Parse(i.t, i.s))
      [] i.op = "compact" -> View(i.t, ParseCompact(i.t, i.s))
      [] i.op = "row" ->
           LET a == Parse(i.t, i.a).v
           IN [r |-> "ok",
               v |-> [q \in 1..Len(i.bs) |->
                        LET b == Parse(i.t, i.bs[q]).v
                        IN <<Cmp(i.t, a, b), IF a = b THEN 1 ELSE 0,
                             IF i.t # "act" /\ Next_(i.t, a, b) THEN 1 ELSE 0,
                             IF i.t # "act" /\ First(i.t, b) THEN 1 ELSE 0>>]]
      [] i.op = "range" ->
           LET s == Parse(i.t, i.a).v e == Parse(i.t, i.b).v
           IN [r |-> "ok",
               v |-> [view |-> RangeView(i.t, s, e),
                      has |-> [q \in 1..Len(i.xs) |->
                                 LET x == Parse(i.t, i.xs[q]).v
                                 IN Cmp(i.t, s, x) <= 0 /\ Cmp(i.t, e, x) >= 0]]]
      [] i.op = "rangec" ->
           LET p == ParseRangeCompact(i.t, i.s)
           IN IF IsOk(p) THEN [r |-> "ok", v |-> RangeView(i.t, p.v[1], p.v[2])] ELSE Err
      [] i.op = "roman" ->
           LET p == ParseRomanNum(i.s) IN IF IsOk(p) THEN [r |-> "ok", v |-> <<NumStr(p.v), NumRoman(p.v)>>] ELSE Err
      [] i.op = "hun" -> FromHun(i.s)
      [] i.op = "tohun" -> ToHun(i.n)
      [] i.op = "date" -> ParseDate(i.s)
      [] i.op = "month" -> MonthOf(i.s)
      [] i.op = "issue" -> ParseIssue(i.s)

(* laws of the specification itself, checked on every case that is evaluated *)
IdentLaws(i) ==
    CASE i.op = "one" ->
           LET p == Parse(i.t, i.s)
           IN IsOk(p) => /\ ParseCompact(i.t, Compact(i.t, p.v)) = p
                         /\ (i.t # "act" \/ ActDispBack(p.v)) => Parse(i.t, Str(i.t, p.v)) = p
      [] i.op = "row" ->
           LET a == Parse(i.t, i.a).v
           IN \A q \in 1..Len(i.bs) :
                LET b == Parse(i.t, i.bs[q]).v
                IN /\ Cmp(i.t, a, b) = 0 - Cmp(i.t, b, a)
                   /\ (Cmp(i.t, a, b) = 0) = (a = b)
                   /\ (i.t # "act" /\ Next_(i.t, a, b)) => Cmp(i.t, b, a) < 0
                   /\ (i.t # "act" /\ Next_(i.t, a, b)) => ~Next_(i.t, b, a)
      [] OTHER -> TRUE
=============================================================================
