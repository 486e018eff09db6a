--------------------------- MODULE MC_RefNotation ---------------------------
(***************************************************************************)
(* The notation of a reference, typed symbol by symbol, and put together    *)
(* from any parts for its five levels, whether they go together or not.     *)
(***************************************************************************)
EXTENDS RefEval, Json
CONSTANTS Mode, Symbols, MaxLen
VARIABLES typed, n
SymsFew == {"1", "a", "_", "-", "."}
SymsMore == {"1", "2", "a", "cs", "_", "-"}
Fields == << {"", "2012.1", "1"},
             {"", "1", "1-2", "2-1", "1.1", "1.1-1.2", "1a", "1/A"},
             {"", "1", "1-2", "1a", "1a-1b", "a"},
             {"", "1", "1-2", "1a", "a", "a-b", "cs", "aa", "1-a"},
             {"", "1", "1-2", "a", "aa", "aa-ab", "aa-1", "csa"} >>
Init == typed = "" /\ n = 0
Next == /\ n < (IF Mode = "fields" THEN 5 ELSE MaxLen) /\ n' = n + 1
        /\ IF Mode = "fields" THEN \E f \in Fields[n + 1] : typed' = typed \o (IF n = 0 THEN "" ELSE "_") \o f
           ELSE \E c \in Symbols : typed' = typed \o c
In == [op |-> "one", s |-> typed]
LawsHold == RefLaws(In)
Emit == PrintT("@@" \o ToJson([i |-> In, e |-> RefExpected(In)]))
=============================================================================
