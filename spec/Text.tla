-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings as TLC's native string values: Len, SubSeq and \o work on them. *)
(* Characters are one-character strings.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Chr(s, i) == SubSeq(s, i, i)
Drop(s, n) == IF n >= Len(s) THEN "" ELSE SubSeq(s, n + 1, Len(s))
Take(s, n) == IF n <= 0 THEN "" ELSE IF n >= Len(s) THEN s ELSE SubSeq(s, 1, n)
StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
CharSet(s) == {Chr(s, i) : i \in 1..Len(s)}
Chars(s) == [i \in 1..Len(s) |-> Chr(s, i)]
RECURSIVE StrOf(_)
StrOf(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o StrOf(Tail(cs))

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Digits == "0123456789"
LowerSet == CharSet(Lower)
UpperSet == CharSet(Upper)
DigitSet == CharSet(Digits)
LowerIx == [c \in LowerSet |-> (CHOOSE i \in 1..26 : Chr(Lower, i) = c) - 1]
UpperIx == [c \in UpperSet |-> (CHOOSE i \in 1..26 : Chr(Upper, i) = c) - 1]
DigitIx == [c \in DigitSet |-> (CHOOSE i \in 1..10 : Chr(Digits, i) = c) - 1]

(* index of the first occurrence of character c in s at or after i; 0 if none *)
RECURSIVE FindChar(_, _, _)
FindChar(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) = c THEN i ELSE FindChar(s, c, i + 1)
(* index of the first occurrence of p in s at or after i; 0 if none *)
RECURSIVE FindStr(_, _, _)
FindStr(s, p, i) == IF i + Len(p) - 1 > Len(s) THEN 0
                    ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindStr(s, p, i + 1)
(* how many characters from position i on are in the set S *)
RECURSIVE Span(_, _, _)
Span(s, i, S) == IF i > Len(s) THEN 0 ELSE IF Chr(s, i) \in S THEN 1 + Span(s, i + 1, S) ELSE 0

CountIn(s, S) == Cardinality({i \in 1..Len(s) : Chr(s, i) \in S})

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ Chr(s, 1) = "0" THEN StripZeros(Drop(s, 1)) ELSE s
RECURSIVE DecVal(_, _)
DecVal(s, acc) == IF s = "" THEN acc ELSE DecVal(Drop(s, 1), acc * 10 + DigitIx[Chr(s, 1)])
BIG == 2000000000
(* value of a digit string, or BIG when it is 10 digits or longer *)
DigitsVal(s) == LET z == StripZeros(s) IN IF Len(z) > 9 THEN BIG ELSE DecVal(z, 0)

AllIn(s, S) == \A i \in 1..Len(s) : Chr(s, i) \in S

Ok(v) == [r |-> "ok", v |-> v]
Err == [r |-> "err"]
IsOk(x) == x.r = "ok"

(* Rust's uN::from_str / iN::from_str, as far as the values stay below BIG *)
ParseUnsigned(s, max) ==
    LET d == IF StartsWith(s, "+") THEN Drop(s, 1) ELSE s
    IN IF d = "" \/ ~AllIn(d, DigitSet) THEN Err
       ELSE IF DigitsVal(d) > max THEN Err ELSE Ok(DigitsVal(d))
ParseSigned(s, min, max) ==
    LET neg == StartsWith(s, "-")
        d == IF neg \/ StartsWith(s, "+") THEN Drop(s, 1) ELSE s
    IN IF d = "" \/ ~AllIn(d, DigitSet) THEN Err
       ELSE LET v == IF neg THEN 0 - DigitsVal(d) ELSE DigitsVal(d)
            IN IF v > max \/ v < min THEN Err ELSE Ok(v)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* Roman numerals *)
RomanPairs == << <<"M",1000>>, <<"CM",900>>, <<"D",500>>, <<"CD",400>>, <<"C",100>>, <<"XC",90>>,
                 <<"L",50>>, <<"XL",40>>, <<"X",10>>, <<"IX",9>>, <<"V",5>>, <<"IV",4>>, <<"I",1>> >>
RECURSIVE RomanGo(_, _)
RomanGo(n, i) == IF n = 0 THEN ""
                 ELSE IF n >= RomanPairs[i][2] THEN RomanPairs[i][1] \o RomanGo(n - RomanPairs[i][2], i)
                 ELSE RomanGo(n, i + 1)
ToRoman(n) == IF n < 1 \/ n > 3999 THEN Err ELSE Ok(RomanGo(n, 1))
RomanVal == [c \in {"I","V","X","L","C","D","M"} |->
               CASE c = "I" -> 1 [] c = "V" -> 5 [] c = "X" -> 10 [] c = "L" -> 50
                 [] c = "C" -> 100 [] c = "D" -> 500 [] OTHER -> 1000]
RomanSet == {"I","V","X","L","C","D","M"}
RECURSIVE RomanLax(_, _, _)
RomanLax(s, n, max) ==
    IF s = "" THEN n
    ELSE LET v == RomanVal[Chr(s, Len(s))]
             rest == Take(s, Len(s) - 1)
         IN IF v < max THEN RomanLax(rest, n - v, max) ELSE RomanLax(rest, n + v, v)
(* only the canonical spelling of 1..3999 is a roman numeral *)
FromRoman(s) ==
    IF ~AllIn(s, RomanSet) \/ Len(s) > 15 THEN Err
    ELSE LET n == RomanLax(s, 0, 0)
         IN IF ToRoman(n) = Ok(s) THEN Ok(n) ELSE Err
=============================================================================
