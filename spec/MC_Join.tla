------------------------------ MODULE MC_Join -------------------------------
(* A passage is written fragment by fragment, each going on with the last   *)
(* line or starting a new one; all passages up to a length.                 *)
EXTENDS Line, Json
CONSTANTS Frags, MaxLen
VARIABLES ts, n
FragsWords == {"a", "-", " ", "és ", "vagy", "és"}
FragsFew == {"a", "-", "és x", "–"}
Init == ts = <<"">> /\ n = 0
Next == /\ n < MaxLen /\ n' = n + 1
        /\ \/ \E f \in Frags : ts' = [ts EXCEPT ![Len(ts)] = @ \o f]
           \/ ts' = Append(ts, "")
In == [op |-> "join", ts |-> ts]
LawsHold == LineLaws(In)
Emit == PrintT("@@" \o ToJson([i |-> In, e |-> LineExpected(In)]))
=============================================================================
