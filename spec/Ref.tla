-------------------------------- MODULE Ref ---------------------------------
(***************************************************************************)
(* References to acts and their parts.  A reference is a path with five     *)
(* levels, any of which may be missing (<<>>): act, article, paragraph,     *)
(* point, subpoint.  The last present level may be a range.                 *)
(***************************************************************************)
EXTENDS Ident

(* Inside a reference an identifier is the tuple of its components, so that  *)
(* identifiers of different types can be compared for equality.              *)
Key(t, v) == CASE t = "letter" -> <<v>> [] t = "num" -> <<v.n, v.s>> [] t = "art" -> <<v.b, v.id.n, v.id.s>>
               [] t = "pre" -> <<v.p, v.c>> [] t = "act" -> <<v.y, v.n>>
UnKey(t, k) == CASE t = "letter" -> k[1] [] t = "num" -> Num(k[1], k[2]) [] t = "art" -> Art(k[1], Num(k[2], k[3]))
                 [] t = "pre" -> Pre(k[1], k[2]) [] t = "act" -> Act(k[1], k[2])
KCmp(t, a, b) == Cmp(t, UnKey(t, a), UnKey(t, b))
KStr(t, a) == Str(t, UnKey(t, a))
KCompact(t, a) == Compact(t, UnKey(t, a))

(* one level: [t |-> identifier type, s |-> first, e |-> last] *)
Part(t, s, e) == [t |-> t, s |-> s, e |-> e]
Levels == <<"act", "art", "para", "pt", "sub">>
NoRef == <<<<>>, <<>>, <<>>, <<>>, <<>>>>

IsRange(p) == p # <<>> /\ p[1].s # p[1].e
Present(r, l) == r[l] # <<>>

(* which levels may be present together: no gaps, except that the paragraph  *)
(* may be missing; a relative reference may start at any level               *)
ValidShape(r) ==
    LET a == Present(r, 1) b == Present(r, 2) c == Present(r, 3) d == Present(r, 4) e == Present(r, 5)
    IN \/ ~b /\ ~c /\ ~d /\ ~e
       \/ b /\ (e => d)
       \/ ~a /\ ~b /\ c /\ ~d /\ ~e
       \/ ~a /\ ~b /\ d
       \/ ~a /\ ~b /\ ~c /\ ~d /\ e
RangeIsLast(r) == \A l \in 1..4 : IsRange(r[l]) => \A m \in (l + 1)..5 : ~Present(r, m)
Valid(r) == ValidShape(r) /\ RangeIsLast(r)
Check(r) == IF Valid(r) THEN Ok(r) ELSE Err

(* last present level; 0 for the empty reference *)
LastLevel(r) == LET s == {l \in 1..5 : Present(r, l)} IN IF s = {} THEN 0 ELSE CHOOSE l \in s : \A m \in s : m <= l

-----------------------------------------------------------------------------
(* order: level by level, a missing level first, numbers before letters      *)
PartCmp(p, q) ==
    IF p = <<>> THEN (IF q = <<>> THEN 0 ELSE -1)
    ELSE IF q = <<>> THEN 1
    ELSE IF p[1].t # q[1].t THEN (IF p[1].t = "num" THEN -1 ELSE 1)
    ELSE LET c == KCmp(p[1].t, p[1].s, q[1].s)
         IN IF c # 0 THEN c ELSE KCmp(p[1].t, p[1].e, q[1].e)
RefCmp(a, b) ==
    LET d == {l \in 1..5 : a[l] # b[l]}
    IN IF d = {} THEN 0 ELSE LET l == CHOOSE l \in d : \A m \in d : l <= m IN PartCmp(a[l], b[l])

FirstIn(r) == [l \in 1..5 |-> IF r[l] = <<>> THEN <<>> ELSE <<Part(r[l][1].t, r[l][1].s, r[l][1].s)>>]
LastIn(r) == [l \in 1..5 |-> IF r[l] = <<>> THEN <<>> ELSE <<Part(r[l][1].t, r[l][1].e, r[l][1].e)>>]

(* a is a proper ancestor of b: b's path continues where a's stops.  The     *)
(* empty reference is the ancestor of every reference without an act.        *)
AncestorOf(a, b) ==
    LET n == Max2(1, LastLevel(a))
    IN (\A l \in 1..n : a[l] = b[l]) /\ LastLevel(b) > n
(* every part of an act that b denotes is one that a denotes.  For forward   *)
(* ranges only: a range that ends before it starts denotes nothing.          *)
Forward(r) == \A l \in 1..5 : IsRange(r[l]) => KCmp(r[l][1].t, r[l][1].s, r[l][1].e) < 0
Covers(a, b) ==
    LET n == LastLevel(a)
    IN IF n <= 1 THEN a[1] = b[1]
       ELSE /\ \A l \in 1..(n - 1) : a[l] = b[l]
            /\ b[n] # <<>> /\ b[n][1].t = a[n][1].t
            /\ KCmp(a[n][1].t, a[n][1].s, b[n][1].s) <= 0
            /\ KCmp(a[n][1].t, b[n][1].e, a[n][1].e) <= 0

ParentOf(r) == IF LastLevel(r) <= 1 THEN NoRef ELSE [r EXCEPT ![LastLevel(r)] = <<>>]
WithoutAct(r) == [r EXCEPT ![1] = <<>>]
(* r, read in the place that o points to *)
RelativeTo(r, o) ==
    LET f == {l \in 1..5 : Present(r, l)}
        top == CHOOSE l \in f : \A m \in f : l <= m
    IN IF f = {} THEN Check(o) ELSE Check([l \in 1..5 |-> IF l < top THEN o[l] ELSE r[l]])
MakeRange(a, b) ==
    LET d == {l \in 1..5 : a[l] # b[l]}
        l == CHOOSE l \in d : \A m \in d : l <= m
    IN IF d = {} THEN Check(a)
       ELSE IF l = 1 \/ a[l] = <<>> \/ b[l] = <<>> \/ a[l][1].t # b[l][1].t
               \/ (\E m \in (l + 1)..5 : Present(a, m) \/ Present(b, m)) THEN Err
       ELSE Check([a EXCEPT ![l] = <<Part(a[l][1].t, a[l][1].s, b[l][1].e)>>])

-----------------------------------------------------------------------------
(* the builder: setting a level forgets every deeper one *)
BSet(b, l, p) == [m \in 1..5 |-> IF m < l THEN b[m] ELSE IF m = l THEN <<p>> ELSE <<>>]
BReset(b, l) == [m \in 1..5 |-> IF m < l THEN b[m] ELSE <<>>]

-----------------------------------------------------------------------------
(* written forms *)
TypesAt(l) == CASE l = 1 -> <<"act">> [] l = 2 -> <<"art">> [] l = 3 -> <<"num">>
                [] l = 4 -> <<"num", "letter">> [] l = 5 -> <<"num", "pre">>
RangeOf(t, s) ==
    LET p == IF t = "act" THEN 0 ELSE FindChar(s, "-", 1)
    IN IF p = 0 THEN LET a == ParseCompact(t, s) IN IF IsOk(a) THEN Ok(Part(t, Key(t, a.v), Key(t, a.v))) ELSE Err
       ELSE LET a == ParseCompact(t, Take(s, p - 1)) b == ParseCompact(t, Drop(s, p))
            IN IF IsOk(a) /\ IsOk(b) THEN Ok(Part(t, Key(t, a.v), Key(t, b.v))) ELSE Err
PartOf(l, s) ==
    LET ts == TypesAt(l) x == RangeOf(ts[1], s)
    IN IF IsOk(x) \/ Len(ts) = 1 THEN x ELSE RangeOf(ts[2], s)
PartCompact(p) ==
    IF p = <<>> THEN ""
    ELSE KCompact(p[1].t, p[1].s) \o (IF IsRange(p) THEN "-" \o KCompact(p[1].t, p[1].e) ELSE "")
RefCompact(r) == PartCompact(r[1]) \o "_" \o PartCompact(r[2]) \o "_" \o PartCompact(r[3]) \o "_"
                 \o PartCompact(r[4]) \o "_" \o PartCompact(r[5])
RECURSIVE SplitOn(_, _)
SplitOn(s, c) == LET p == FindChar(s, c, 1)
                 IN IF p = 0 THEN <<s>> ELSE <<Take(s, p - 1)>> \o SplitOn(Drop(s, p), c)
FromParts(ss) ==
    LET ps == [l \in 1..5 |-> IF ss[l] = "" THEN Ok(<<>>)
                              ELSE LET p == PartOf(l, ss[l]) IN IF IsOk(p) THEN Ok(<<p.v>>) ELSE Err]
    IN IF \E l \in 1..5 : ~IsOk(ps[l]) THEN Err ELSE Check([l \in 1..5 |-> ps[l].v])
RefParse(s) == LET ss == SplitOn(s, "_") IN IF Len(ss) # 5 THEN Err ELSE FromParts(ss)

(* Hungarian legal citation form *)
Cite(p, open, close) ==
    LET w(x) == open \o KStr(p[1].t, x) \o close IN IF IsRange(p) THEN w(p[1].s) \o "–" \o w(p[1].e) ELSE w(p[1].s)
CiteNum(p) == LET w(x) == KStr(p[1].t, x)
              IN (IF IsRange(p) THEN w(p[1].s) \o "–" \o w(p[1].e) ELSE w(p[1].s)) \o "."
CitePoint(p) == IF p[1].t \in {"num"} THEN CiteNum(p) ELSE Cite(p, "", ")")
RefStr(r) ==
    (IF ~Present(r, 1) THEN "" ELSE KStr("act", r[1][1].s) \o (IF Present(r, 2) THEN " " ELSE ""))
    \o (IF ~Present(r, 2) THEN "" ELSE CiteNum(r[2]) \o (IF Present(r, 3) \/ Present(r, 4) THEN " § " ELSE " §-a"))
    \o (IF ~Present(r, 3) THEN "" ELSE Cite(r[3], "(", ")") \o (IF Present(r, 4) THEN " bekezdés " ELSE " bekezdése"))
    \o (IF ~Present(r, 4) THEN "" ELSE CitePoint(r[4]) \o (IF Present(r, 5) THEN " pont " ELSE " pontja"))
    \o (IF ~Present(r, 5) THEN "" ELSE CitePoint(r[5]) \o " alpontja")

ResC(x) == IF IsOk(x) THEN RefCompact(x.v) ELSE "ERR"
=============================================================================
