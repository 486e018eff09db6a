------------------------------- MODULE Ident --------------------------------
(***************************************************************************)
(* Identifiers of acts and of the parts of acts: their values, order,      *)
(* succession (which header may follow which), and written forms.          *)
(***************************************************************************)
EXTENDS Text

NONE == -1

-----------------------------------------------------------------------------
(* Letters: the 26 latin ones and the 8 Hungarian digraphs.  A letter is    *)
(* its collation key: twice the index of the latin letter, plus one for the *)
(* digraph that follows that letter in the Hungarian alphabet.              *)
DigraphOf == [i \in {2, 3, 6, 11, 13, 18, 19, 25} |->
    CASE i = 2 -> "cs" [] i = 3 -> "dz" [] i = 6 -> "gy" [] i = 11 -> "ly"
      [] i = 13 -> "ny" [] i = 18 -> "sz" [] i = 19 -> "ty" [] OTHER -> "zs"]
DigraphUpper == [i \in DOMAIN DigraphOf |->
    Chr(Upper, i + 1) \o Chr(Upper, LowerIx[Chr(DigraphOf[i], 2)] + 1)]
DigraphMixed == [i \in DOMAIN DigraphOf |-> Chr(Upper, i + 1) \o Chr(DigraphOf[i], 2)]
Latins == {2 * i : i \in 0..25}
Digraphs == {2 * i + 1 : i \in DOMAIN DigraphOf}
Letters == Latins \cup Digraphs

LetterStr(l) == IF l \in Latins THEN Chr(Lower, (l \div 2) + 1) ELSE DigraphOf[l \div 2]
LetterUpper(l) == IF l \in Latins THEN Chr(Upper, (l \div 2) + 1) ELSE DigraphUpper[l \div 2]
LatinOf(c) == IF c \in LowerSet THEN Ok(2 * LowerIx[c])
              ELSE IF c \in UpperSet THEN Ok(2 * UpperIx[c]) ELSE Err
ParseLetter(s) ==
    IF Len(s) = 1 THEN LatinOf(s)
    ELSE LET m == {i \in DOMAIN DigraphOf : s \in {DigraphOf[i], DigraphUpper[i], DigraphMixed[i]}}
         IN IF m = {} THEN Err ELSE Ok(2 * (CHOOSE i \in m : TRUE) + 1)

LetterFirst(l) == l = 0
(* every latin letter is followed by the next one; a letter may instead be  *)
(* followed by its digraph, and a digraph by the next latin letter; 'q' may *)
(* be left out                                                              *)
LetterNext(s, o) ==
    IF s \in Latins /\ o \in Latins THEN s = o + 2 \/ (s = 34 /\ o = 30)
    ELSE IF s \in Digraphs THEN s = o + 1
    ELSE s = o + 1
LetterCmp(a, b) == Sgn(a, b)

-----------------------------------------------------------------------------
(* Numbers with an optional suffix letter: 12, 12a, 12/A *)
Num(n, s) == [n |-> n, s |-> s]
NumCmp(a, b) == IF a.n # b.n THEN Sgn(a.n, b.n) ELSE Sgn(a.s, b.s)
NumFirst(a) == a.n = 1 /\ a.s = NONE
NumNext(a, o) ==
    IF a.s = NONE THEN a.n = o.n + 1
    ELSE IF o.s = NONE THEN a.n = o.n /\ LetterFirst(a.s)
    ELSE a.n = o.n /\ LetterNext(a.s, o.s)
NumStr(a) == ToString(a.n) \o (IF a.s = NONE THEN "" ELSE LetterStr(a.s))
NumSlash(a) == ToString(a.n) \o (IF a.s = NONE THEN "" ELSE "/" \o LetterUpper(a.s))
SuffixOf(rest) ==
    IF rest = "" THEN Ok(NONE)
    ELSE LET t == IF StartsWith(rest, "/") THEN Drop(rest, 1) ELSE rest
         IN IF t = "" THEN Err ELSE ParseLetter(t)
ParseNum(s) ==
    LET d == Span(s, 1, DigitSet)
        suf == SuffixOf(Drop(s, d))
    IN IF d = 0 \/ ~IsOk(suf) THEN Err
       ELSE LET v == DigitsVal(Take(s, d)) IN IF v > 65535 THEN Err ELSE Ok(Num(v, suf.v))
ParseRomanNum(s) ==
    LET d == Span(s, 1, RomanSet)
        suf == SuffixOf(Drop(s, d))
        n == FromRoman(Take(s, d))
    IN IF ~IsOk(suf) \/ ~IsOk(n) THEN Err ELSE Ok(Num(n.v, suf.v))
NumRoman(a) ==
    LET r == ToRoman(a.n)
    IN IF ~IsOk(r) THEN Err ELSE Ok(r.v \o (IF a.s = NONE THEN "" ELSE "/" \o LetterStr(a.s)))

(* Hungarian ordinals, 0 to 100 *)
HunTens == <<"", "tizen", "huszon", "harminc", "negyven", "ötven", "hatvan", "hetven", "nyolcvan", "kilencven">>
HunOnes == <<"nulladik", "egyedik", "kettedik", "harmadik", "negyedik", "ötödik", "hatodik", "hetedik", "nyolcadik", "kilencedik">>
HunSpecial == [n \in {1, 2, 10, 20, 30, 40, 50, 60, 70, 80, 90, 100} |->
    CASE n = 1 -> "első" [] n = 2 -> "második" [] n = 10 -> "tizedik" [] n = 20 -> "huszadik"
      [] n = 30 -> "harmincadik" [] n = 40 -> "negyvenedik" [] n = 50 -> "ötvenedik"
      [] n = 60 -> "hatvanadik" [] n = 70 -> "hetvenedik" [] n = 80 -> "nyolcvanadik"
      [] n = 90 -> "kilencvenedik" [] OTHER -> "századik"]
HunStr(n) == IF n \in DOMAIN HunSpecial THEN HunSpecial[n]
             ELSE HunTens[(n \div 10) + 1] \o HunOnes[(n % 10) + 1]
HunTable == [n \in 0..100 |-> HunStr(n)]
AccentLower == "áéíóöőúüű"
AccentUpper == "ÁÉÍÓÖŐÚÜŰ"
UpChar(c) == IF c \in LowerSet THEN Chr(Upper, LowerIx[c] + 1)
             ELSE IF FindChar(AccentLower, c, 1) > 0 THEN Chr(AccentUpper, FindChar(AccentLower, c, 1))
             ELSE c
RECURSIVE UpStr(_)
UpStr(s) == IF s = "" THEN "" ELSE UpChar(Chr(s, 1)) \o UpStr(Drop(s, 1))
HunForms == [n \in 0..100 |-> {HunTable[n], UpStr(HunTable[n]), UpChar(Chr(HunTable[n], 1)) \o Drop(HunTable[n], 1)}]
FromHun(s) == LET m == {n \in 0..100 : s \in HunForms[n]} IN IF m = {} THEN Err ELSE Ok(CHOOSE n \in m : TRUE)
ToHun(n) == IF n > 100 THEN Err ELSE Ok(HunTable[n])
NumHun(a) == IF a.n > 100 THEN Err ELSE Ok(HunTable[a.n] \o (IF a.s = NONE THEN "" ELSE "/" \o LetterStr(a.s)))

-----------------------------------------------------------------------------
(* Articles: an optional book and a number: 2:12/A *)
Art(b, id) == [b |-> b, id |-> id]
ArtCmp(a, o) == IF a.b # o.b THEN Sgn(a.b, o.b) ELSE NumCmp(a.id, o.id)
ArtFirst(a) == NumFirst(a.id) /\ a.b \in {NONE, 1}
ArtNext(a, o) ==
    IF a.b = o.b THEN NumNext(a.id, o.id)
    ELSE a.b # NONE /\ o.b # NONE /\ a.b = o.b + 1 /\ NumFirst(a.id)
ArtStr(a) == (IF a.b = NONE THEN "" ELSE ToString(a.b) \o ":") \o NumSlash(a.id)
ArtCompact(a) == (IF a.b = NONE THEN "" ELSE ToString(a.b) \o ".") \o NumStr(a.id)
ParseArtSep(s, sep) ==
    LET p == FindChar(s, sep, 1)
    IN IF p = 0
       THEN LET n == ParseNum(s) IN IF IsOk(n) THEN Ok(Art(NONE, n.v)) ELSE Err
       ELSE LET b == ParseUnsigned(Take(s, p - 1), 255)
                n == ParseNum(Drop(s, p))
            IN IF IsOk(b) /\ IsOk(n) THEN Ok(Art(b.v, n.v)) ELSE Err
ParseArt(s) == ParseArtSep(s, ":")
ParseArtCompact(s) == ParseArtSep(s, ".")

(* Paragraphs: a number, or nothing at all (an article's only paragraph) *)
NoPara == Num(NONE, NONE)
ParaCmp(a, o) == NumCmp(a, o)
ParaFirst(a) == a # NoPara /\ NumFirst(a)
ParaNext(a, o) == a # NoPara /\ o # NoPara /\ NumNext(a, o)
ParaStr(a) == IF a = NoPara THEN "" ELSE NumStr(a)
ParsePara(s) == IF s = "" THEN Ok(NoPara) ELSE ParseNum(s)

(* Subpoint letters: an optional prefix letter and a letter: b), ab) *)
Pre(p, c) == [p |-> p, c |-> c]
PreCmp(a, o) == IF a.p # o.p THEN Sgn(a.p, o.p) ELSE Sgn(a.c, o.c)
PreFirst(a) == LetterFirst(a.c)
PreNext(a, o) == a.p = o.p /\ LetterNext(a.c, o.c)
PreStr(a) == (IF a.p = NONE THEN "" ELSE LetterStr(a.p)) \o LetterStr(a.c)
ParsePre(s) ==
    IF Len(s) = 1 THEN LET c == LatinOf(s) IN IF IsOk(c) THEN Ok(Pre(NONE, c.v)) ELSE Err
    ELSE IF Len(s) = 2
    THEN LET p == LatinOf(Chr(s, 1)) c == LatinOf(Chr(s, 2))
         IN IF IsOk(p) /\ IsOk(c) THEN Ok(Pre(p.v, c.v)) ELSE Err
    ELSE Err

-----------------------------------------------------------------------------
(* Acts: year and number *)
Act(y, n) == [y |-> y, n |-> n]
ActCmp(a, o) == IF a.y # o.y THEN Sgn(a.y, o.y) ELSE Sgn(a.n, o.n)
ActStr(a) == LET r == ToRoman(a.n)
             IN ToString(a.y) \o ". évi " \o (IF IsOk(r) THEN r.v ELSE ToString(a.n)) \o ". törvény"
ActCompact(a) == ToString(a.y) \o "." \o ToString(a.n)
MAXI32 == 2147483647
ParseActCompact(s) ==
    LET p == FindChar(s, ".", 1)
    IN IF p = 0 THEN Err
       ELSE LET y == ParseSigned(Take(s, p - 1), -32768, 32767)
                n == ParseSigned(Drop(s, p), -1999999999, 1999999999)
            IN IF IsOk(y) /\ IsOk(n) THEN Ok(Act(y.v, n.v)) ELSE Err
(* leftmost "YYYY. évi ROMAN. törvény", where each "." is any one character *)
ClassicAt(s, i) ==
    IF ~(i + 9 <= Len(s) /\ AllIn(SubSeq(s, i, i + 3), DigitSet) /\ SubSeq(s, i + 5, i + 9) = " évi ") THEN Err
    ELSE LET d == Span(s, i + 10, RomanSet)
         IN (* the greedy roman run may give back characters so that "." matches one of them *)
            LET fits == {j \in 1..d : SubSeq(s, i + 10 + j + 1, Min2(Len(s), i + 10 + j + 8)) = " törvény"}
            IN IF fits = {} THEN Err
               ELSE LET j == CHOOSE j \in fits : \A q \in fits : q <= j
                    IN Ok(<<SubSeq(s, i, i + 3), SubSeq(s, i + 10, i + 9 + j)>>)
DecimalAt(s, i) ==
    IF ~(i + 5 <= Len(s) /\ AllIn(SubSeq(s, i, i + 3), DigitSet) /\ Chr(s, i + 4) \in {"/", "_", ".", "-"}) THEN Err
    ELSE LET d == Span(s, i + 5, DigitSet)
         IN IF d = 0 THEN Err ELSE Ok(<<SubSeq(s, i, i + 3), SubSeq(s, i + 5, i + 4 + d)>>)
Leftmost(Op(_, _), s) ==
    LET hits == {i \in 1..Len(s) : IsOk(Op(s, i))}
    IN IF hits = {} THEN Err ELSE Op(s, CHOOSE i \in hits : \A q \in hits : i <= q)
ParseAct(s) ==
    LET c == Leftmost(ClassicAt, s)
        cr == IF IsOk(c) THEN FromRoman(c.v[2]) ELSE Err
        d == Leftmost(DecimalAt, s)
    IN IF IsOk(c) /\ IsOk(cr) THEN Ok(Act(DigitsVal(c.v[1]), cr.v))
       ELSE IF IsOk(d) /\ DigitsVal(d.v[2]) < BIG THEN Ok(Act(DigitsVal(d.v[1]), DigitsVal(d.v[2])))
       ELSE Err

-----------------------------------------------------------------------------
(* Dates: "2012. december 5." *)
Months == <<"január", "február", "március", "április", "május", "június", "július", "augusztus",
            "szeptember", "október", "november", "december">>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
MonthOf(s) == LET m == {i \in 1..12 : Months[i] = s} IN IF m = {} THEN Err ELSE Ok(CHOOSE i \in m : TRUE)
ParseDate(s) ==
    LET p == IF Len(s) >= 7 /\ AllIn(Take(s, 4), DigitSet) /\ SubSeq(s, 5, 6) = ". " THEN FindChar(s, " ", 7) ELSE 0
        m == IF p > 7 THEN MonthOf(SubSeq(s, 7, p - 1)) ELSE Err
        d == IF p = 0 THEN 0 ELSE Span(s, p + 1, DigitSet)
    IN IF p = 0 \/ ~IsOk(m) \/ d \notin {1, 2} \/ p + d + 1 > Len(s) THEN Err
       ELSE IF Chr(s, p + d + 1) # "." THEN Err
       ELSE LET y == DigitsVal(Take(s, 4)) dd == DigitsVal(SubSeq(s, p + 1, p + d))
            IN IF dd < 1 \/ dd > DaysIn(y, m.v) THEN Err ELSE Ok(<<y, m.v, dd>>)

(* Gazette issues: YEAR/ISSUE *)
ParseIssue(s) ==
    LET p == FindChar(s, "/", 1)
    IN IF p = 0 \/ FindChar(s, "/", p + 1) > 0 THEN Err
       ELSE LET y == ParseSigned(Take(s, p - 1), -1999999999, 1999999999)
                n == ParseSigned(Drop(s, p), -1999999999, 1999999999)
            IN IF IsOk(y) /\ IsOk(n) THEN Ok(<<y.v, n.v>>) ELSE Err

-----------------------------------------------------------------------------
(* What an observer of one identifier type sees.  t is the type's name.     *)
Parse(t, s) == CASE t = "letter" -> ParseLetter(s) [] t = "num" -> ParseNum(s) [] t = "art" -> ParseArt(s)
                 [] t = "para" -> ParsePara(s) [] t = "pre" -> ParsePre(s) [] t = "act" -> ParseAct(s)
ParseCompact(t, s) == CASE t = "art" -> ParseArtCompact(s) [] t = "act" -> ParseActCompact(s) [] OTHER -> Parse(t, s)
Str(t, a) == CASE t = "letter" -> LetterStr(a) [] t = "num" -> NumStr(a) [] t = "art" -> ArtStr(a)
               [] t = "para" -> ParaStr(a) [] t = "pre" -> PreStr(a) [] t = "act" -> ActStr(a)
Compact(t, a) == CASE t = "art" -> ArtCompact(a) [] t = "act" -> ActCompact(a) [] OTHER -> Str(t, a)
Cmp(t, a, b) == CASE t = "letter" -> LetterCmp(a, b) [] t = "num" -> NumCmp(a, b) [] t = "art" -> ArtCmp(a, b)
                  [] t = "para" -> ParaCmp(a, b) [] t = "pre" -> PreCmp(a, b) [] t = "act" -> ActCmp(a, b)
First(t, a) == CASE t = "letter" -> LetterFirst(a) [] t = "num" -> NumFirst(a) [] t = "art" -> ArtFirst(a)
                 [] t = "para" -> ParaFirst(a) [] t = "pre" -> PreFirst(a)
Next_(t, a, b) == CASE t = "letter" -> LetterNext(a, b) [] t = "num" -> NumNext(a, b) [] t = "art" -> ArtNext(a, b)
                    [] t = "para" -> ParaNext(a, b) [] t = "pre" -> PreNext(a, b)
=============================================================================
