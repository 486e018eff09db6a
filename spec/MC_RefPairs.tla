----------------------------- MODULE MC_RefPairs ----------------------------
(* All references over a small vocabulary, against each other.              *)
EXTENDS RefEval, Json
CONSTANTS Acts, Arts, Paras, Pts, Subs
VARIABLE cur
ActsQ == {"", "2012.1"}
ActsT == {"", "2012.1", "2012.2"}
ArtsQ == {"", "1", "2", "1-3"}
ArtsT == {"", "1", "2", "1-3", "1.1", "1a"}
ParasQ == {"", "1", "1-2"}
ParasT == {"", "1", "2", "1-2", "2a-3"}
PtsQ == {"", "1", "a", "a-c"}
PtsT == {"", "1", "2", "1-2", "a", "c", "a-cs"}
SubsQ == {"", "1", "ab"}
SubsT == {"", "1", "a", "ab", "aa-ac"}
Raw == {<<a, b, c, d, e>> : a \in Acts, b \in Arts, c \in Paras, d \in Pts, e \in Subs}
U == {x \in {FromParts(ss) : ss \in Raw} : IsOk(x)}
USeq == SetToSeq({x.v : x \in U})
UStr == [q \in 1..Len(USeq) |-> RefCompact(USeq[q])]
Init == cur = 0
Next == cur = 0 /\ cur' \in 1..Len(USeq)
In == [op |-> "row", a |-> UStr[cur], bs |-> UStr]
(* transitivity of the two orders *)
CoversTrans == cur > 0 => \A x, y \in 1..Len(USeq) :
    Covers(USeq[cur], USeq[x]) /\ Covers(USeq[x], USeq[y]) => Covers(USeq[cur], USeq[y])
LawsHold == cur > 0 => RowLaws(USeq[cur], USeq)
Emit == cur > 0 => PrintT("@@" \o ToJson([i |-> In, e |-> RowView(USeq[cur], USeq)]))
=============================================================================
