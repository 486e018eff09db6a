------------------------------ MODULE MC_Amend ------------------------------
(* An amendment names a place, and a block is quoted line by line; after    *)
(* every line the amending paragraph is converted.                          *)
EXTENDS Amend, Json
CONSTANTS Places, Vocab, MaxLen
VARIABLES pos, ls
V(t, x) == <<t, x, 0, 1>>
VB(t, x) == <<t, x, 1, 1>>
Ref_(s) == [t |-> "ref", v |-> s, only |-> FALSE]
Unit(t, s, o) == [t |-> t, v |-> s, only |-> o]
PlacesEl == {Ref_("_3_2__"), Ref_("_3_2-3__"), Ref_("_3_1_b_"), Ref_("_3_1_2_"), Ref_("_3_1_b-c_"), Ref_("_3_1_a_ab"), Ref_("_3_1_a_2"), Ref_("_3_1_2_b"), Ref_("_3___")}
PlacesStr == {Unit("art", "3", FALSE), Unit("art", "3-4", FALSE), Unit("chapter", "2", TRUE), Unit("chapter", "2", FALSE), Unit("subid", "2", TRUE), Unit("subafter", "3", FALSE),
              Unit("part", "2", TRUE), Unit("subtitle", "Cím", TRUE)}
VocabEl == {V("(2) x", 0), V("(3) x", 0), V("3. § (2) x", 0), V("b) x", 0), V("c) x", 0), V("2. x", 0), V("3. x", 0), V("ab) x", 0), V("ac) x", 0), V("w", 0), V("a) x", 20),
            V("„b) y”", 0), V("x „(3)", 0), V("y”", 0), V("ba) x", 20), V("bb) x", 20), V("1. x", 20)}
VocabStr == {V("3. § x", 0), V("4. § (1) x", 0), V("(2) y", 0), V("3. § [T]", 0), V("II. Fejezet", 40), V("t", 40), VB("2. Cím", 40), VB("Cím", 40), V("", 0), V("„4. § x", 0), V("y”", 0),
             V("1. § z", 0), V("MÁSODIK RÉSZ", 40)}
Init == pos \in Places /\ ls = <<>>
Next == Len(ls) < MaxLen /\ UNCHANGED pos /\ \E v \in Vocab : ls' = Append(ls, v)
In == [intro |-> "A:", qbs |-> << [in |-> <<"be">>, ls |-> ls, wu |-> <<>>] >>, wu |-> <<"lép">>, pos |-> pos]
LawsHold == AmendLaws(In)
Emit == PrintT("@@" \o ToJson([i |-> In, e |-> AmendExpected(In)]))
=============================================================================
