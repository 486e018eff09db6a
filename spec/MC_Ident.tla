------------------------------ MODULE MC_Ident ------------------------------
(***************************************************************************)
(* A drafter numbers the siblings of one parent: each step either takes     *)
(* any legal successor of the last number, or starts an independent list at *)
(* an arbitrary identifier.  Explored exhaustively over a finite universe;  *)
(* every state is replayed on the real code with the full row of            *)
(* comparisons against the whole universe.                                  *)
(***************************************************************************)
EXTENDS IdentEval, Json
CONSTANTS T, Nums, Books, Sufs, Pres
SufsAll == Letters \cup {NONE}
SufsFew == {NONE, 0, 2, 4, 5, 6, 30, 32, 34, 36, 37, 38, 50, 51}
SufsTiny == {NONE, 0, 2, 4, 5, 50, 51}
PresAll == Latins \cup {NONE}
PresFew == {NONE, 0, 2, 4, 50}
BooksAll == {NONE, 0, 1, 2, 3, 254, 255}
VARIABLES cur, prev
Universe ==
    CASE T = "letter" -> Letters
      [] T = "num" -> {Num(n, s) : n \in Nums, s \in Sufs}
      [] T = "para" -> {Num(n, s) : n \in Nums, s \in Sufs} \cup {NoPara}
      [] T = "art" -> {Art(b, Num(n, s)) : b \in Books, n \in Nums, s \in Sufs}
      [] T = "pre" -> {Pre(p, c) : p \in Pres, c \in Latins}
      [] T = "act" -> {Act(y, n) : y \in Books, n \in Nums}
USeq == SetToSeq(Universe)
UStr == [q \in 1..Len(USeq) |-> IF T = "act" THEN ActCompact(USeq[q]) ELSE Str(T, USeq[q])]
Nil == <<>>
Init == cur = Nil /\ prev = Nil
Start == cur = Nil /\ \E u \in Universe : cur' = <<u>> /\ prev' = Nil
Follow == /\ cur # Nil /\ T # "act"
          /\ \E u \in Universe : Next_(T, u, cur[1]) /\ cur' = <<u>> /\ prev' = cur
Next == Start \/ Follow
In == [op |-> "row", t |-> T, a |-> IF T = "act" THEN ActCompact(cur[1]) ELSE Str(T, cur[1]), bs |-> UStr]
(* strictly increasing numbering; nothing but a digraph or 'q' may be skipped *)
Increasing == prev # Nil => Cmp(T, prev[1], cur[1]) < 0
OneFirst == cur # Nil /\ T \in {"num", "para", "letter"} /\ First(T, cur[1]) =>
              \A u \in Universe : First(T, u) => u = cur[1]
Trans == cur # Nil => \A u \in Universe : LET x == cur[1] IN
            Cmp(T, x, u) < 0 => \A w \in Universe : Cmp(T, u, w) < 0 => Cmp(T, x, w) < 0
Emit == cur # Nil /\ prev = Nil =>
        PrintT("@@" \o ToJson([i |-> In, e |-> IdentExpected(In)]))
LawsHold == cur # Nil => IdentLaws(In)
=============================================================================
