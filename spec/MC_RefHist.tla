----------------------------- MODULE MC_RefHist -----------------------------
(***************************************************************************)
(* Every construction history up to a bound: the machine of RefEval run     *)
(* over a small vocabulary.  Histories that reach the same registers are    *)
(* one state (VIEW); every transition between such states is replayed on    *)
(* the real code, also the ones that lead to registers already seen.        *)
(***************************************************************************)
EXTENDS RefEval, Json
CONSTANTS MaxLen, Vocab
VARIABLES m, hist
I(o) == [o |-> o]
SetI(l, v) == [o |-> "set", l |-> l, v |-> v]
VocabBuild ==
    {SetI("act", "2012.1"), SetI("art", "1"), SetI("art", "1-2"), SetI("para", "1"), SetI("para", "1-2a"), SetI("pt", "1"),
     SetI("pt", "a"), SetI("pt", "a-c"), SetI("sub", "1"), SetI("sub", "aa"), SetI("sub", "a-b"),
     I("build"), I("save"), I("rel"), I("parent")}
    \cup {[o |-> "reset", l |-> l] : l \in {"art", "para", "pt", "sub"}}
VocabAlgebra ==
    {[o |-> "compact", v |-> v] : v \in {"2012.1_1___", "2012.1_2_1__", "_1__a_", "__1-2__", "___a_", "___1_", "____ab", "_1-3___", "__2_1_a"}}
    \cup {[o |-> "serde", v |-> v] : v \in {<<"", "", "2", "", "">>, <<"2012.1", "", "1", "", "">>, <<"", "2", "", "", "">>}}
    \cup {I(o) : o \in {"save", "swap", "parent", "noact", "first", "last", "rel", "range"}}
    \cup {[o |-> "act", v |-> "2012.2"], [o |-> "art", v |-> "1-2"], [o |-> "actart", v |-> "2012.1", w |-> "1-2"]}
Init == m = R0 /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E i \in Vocab : m' = Step(m, i) /\ hist' = Append(hist, i)
View == <<m.b, m.r, m.s, m.out>>
WellFormed == Valid(m.r) /\ Valid(m.s)
Emit == PrintT("@@" \o ToJson([i |-> [op |-> "prog", prog |-> hist'], e |-> ProgView(hist')]))
=============================================================================
