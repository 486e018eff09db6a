------------------------------ MODULE MC_Wrap -------------------------------
(***************************************************************************)
(* All short texts, typed character by character, wrapped to all widths.    *)
(***************************************************************************)
EXTENDS DocEval, Json
CONSTANTS Alphabet, MaxLen, Widths
VARIABLES s
AlphaHyphen == {"a", "-", " "}
AlphaWide == {"a", "„", " ", "-"}
Init == s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
In(w) == [op |-> "text", f |-> "plain", esc |-> "", width |-> w + 5,
          act |-> [y |-> 2012, n |-> 1, subject |-> "", pre |-> s, date |-> "2012-01-02", abbr |-> <<>>, ch |-> <<>>]]
LawsHold == \A w \in Widths : WrapLaws("", s, w)
Emit == \A w \in Widths : PrintT("@@" \o ToJson([i |-> In(w), e |-> DocExpected(In(w))]))
=============================================================================
