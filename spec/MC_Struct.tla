----------------------------- MODULE MC_Struct ------------------------------
(***************************************************************************)
(* Drafting: a body is written line by line, each line taken from a small   *)
(* vocabulary.  After every line the body read so far is a state; all       *)
(* bodies up to a length are explored, the laws are checked on each, and    *)
(* each is replayed on the real parser.                                     *)
(***************************************************************************)
EXTENDS StructEval, Json
CONSTANTS Start, Vocab, MaxLen
VARIABLE ls
V(t, x) == <<t, x, 0, 1>>
VB(t, x) == <<t, x, 1, 1>>
StartNone == <<>>
StartArt == << V("1. § x:", 0) >>
StartPara == << V("1. § (1) x", 0) >>
VocabHeads == {V("1. § x", 0), V("1. § y", 8), V("2. § (1) x", 3), V("1/A. § x", 0), V("ELSŐ RÉSZ", 40), V("II. Fejezet", 40),
               VB("1. Alcím", 40), VB("Cím", 40), V("", 0), V("„x", 0), V("x”", 0), V("ZÁRÓ RÉSZ", 0)}
VocabParas == {V("(2) x", 100), V("(3) x", 0), V("(1) y", 60), V("(1a) x", 100), V("(2) x", 105), V("a) x", 20), V("b) x", 20), V("y", 0), V("2. § [T]", 0),
               V("2. § ", 0), V("[T]", 0)}
VocabPoints == {V("a) x", 20), V("b) x", 20), V("b) x", 24), V("c) y", 20), V("aa) x", 40), V("ab) x", 40), V("1. x", 20), V("2. x", 20),
                V("w", 20), V("w", 60), V("ba) x", 23), V("c) alpont", 20)}
VocabNum == {V("1. x", 20), V("2. x", 20), V("2a. x", 20), V("3. z", 0), V("a) x", 40), V("b) x", 40), V("w", 40), V("w", 20), V("1a. x", 20), V("1. pont", 20), V("2. alpont", 20), V("aa) x", 40), V("ab) x", 40)}
VocabQuote == {V("„a) x", 20), V("„x”", 0), V("b) x", 20), V("y”", 20), V("(z)", 0), V("(z", 0), V("a) x", 20), V("2. § x", 0), V("w", 0), V("", 0), V("„”", 0), V("a) „x", 20)}
VocabQStruct == {V("„2. § x", 0), V("2. § y", 0), V("(2) x", 0), V("“II. Fejezet", 40), VB("Cím", 40), V("x”", 0), V("„„x”", 0), V("y””", 0), V("a) „x", 20), V("b) x”", 20), V("c) x", 20), V("b) z", 20)}
VocabBlocks == {V("„x", 20), V("y”", 20), V("y” z", 0), V("(z", 0), V("z)", 0), V("[z]", 0), V("", 0), V("w", 0), V("„”", 0), V("y”)", 20), V("„x „y”", 20)}
VocabMix == {V("1. § x", 0), V("2. § (1) x-", 0), V("(2) és y", 0), V("a) x:", 20), V("b) y", 20), V("„z", 20), V("z”", 20), V("w-", 40), VB("Cím", 40), V("II. Fejezet", 40), V("", 0), V("2. § [T", 0), V("u]", 40)}
VocabOdd == {V("1. § ", 0), V("1. §", 0), V("65535. § [", 0), V("]", 0), V("(", 0), V("()", 0), V("a) ", 0), V(" ", 0), V("(1) ", 0), V("„", 0), V("”", 0), V(" RÉSZ", 40), VB(". ", 40), V(":", 0), V("", 0)}
Lines == LinesOf(ls)
Init == ls = Start
Next == Len(ls) < Len(Start) + MaxLen /\ \E v \in Vocab : ls' = Append(ls, v)
LawsHold == LET r == TLCEval(ParseBody(Lines, "full")) IN ls # <<>> => BodyLaws(Lines, r, "full")
Emit == ls # <<>> => PrintT("@@" \o ToJson([i |-> [ls |-> ls], e |-> BodyView(ParseBody(Lines, "full"))]))
=============================================================================
