------------------------------ MODULE MC_Line -------------------------------
(* Cutting and joining lines, all histories up to a bound.                  *)
EXTENDS Line, Json
CONSTANTS MaxOps
VARIABLES regs, hist
Starts == {[o |-> "line", p |-> <<<<20, "a", 0>>, <<20, "é", 1>>, <<6, "-", 1>>, <<20, "„", 1>>>>, j |-> TRUE],
           [o |-> "line", p |-> <<<<80, "b", 1>>, <<8, " ", 0>>>>, j |-> FALSE],
           [o |-> "line", p |-> <<<<65, "c", 1>>>>, j |-> TRUE],
           [o |-> "empty"]}
Tos == {<<>>} \cup {<<t>> : t \in {-1, 1, 2, 9}}
Ops == {[o |-> "slice", r |-> r, from |-> f, to |-> t] : r \in 1..Len(regs), f \in {-2, 0, 1, 3}, t \in Tos}
       \cup {[o |-> "multi", rs |-> <<r, s>>] : r \in 1..Len(regs), s \in 1..Len(regs)}
       \cup {[o |-> "bold", r |-> r] : r \in 1..Len(regs)}
Init == regs = <<>> /\ hist = <<>>
Next == \/ Len(regs) < 2 /\ \E i \in Starts : regs' = Append(regs, LStep(regs, i)) /\ hist' = Append(hist, i)
        \/ /\ Len(regs) \in 1..(MaxOps + 1)
           /\ \E i \in Ops : regs' = Append(regs, LStep(regs, i)) /\ hist' = Append(hist, i)
View == regs
InOf(h) == [op |-> "lprog", prog |-> h, unit |-> 16]
In == InOf(hist)
LawsHold == LineLaws(In)
(* every transition is replayed, also one that leads to registers already seen *)
Emit == PrintT("@@" \o ToJson([i |-> InOf(hist'), e |-> LineExpected(InOf(hist'))]))
=============================================================================
