----------------------------- MODULE MC_Durable -----------------------------
(***************************************************************************)
(* Why one way of writing a file satisfies Store and others do not: two      *)
(* processes write a file in pieces, any of them may stop at any point.      *)
(* Way "place": into the file itself.  "shared": into one temporary file,    *)
(* then rename.  "own": each into its own temporary file, then rename.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Way, Pieces
VARIABLES dir, data, pc, fd
Vars == <<dir, data, pc, fd>>
Procs == 1..2
Old == [n \in 1..Pieces |-> 0]
New(p) == [n \in 1..Pieces |-> p]
Name(p) == IF Way = "place" THEN "file" ELSE IF Way = "shared" THEN "temp" ELSE <<"temp1", "temp2">>[p]
(* dir: name -> number of the file's data (0: none); data: what each holds; fd: what a process writes into, and how far it is *)
Init == /\ dir = [n \in {"file", "temp", "temp1", "temp2"} |-> IF n = "file" THEN 1 ELSE 0]
        /\ data = <<Old>> /\ pc = [p \in Procs |-> "start"] /\ fd = [p \in Procs |-> <<0, 0>>]
Create(p) ==
    /\ pc[p] = "start"
    /\ LET f == dir[Name(p)]
       IN IF f # 0 THEN data' = [data EXCEPT ![f] = <<>>] /\ dir' = dir /\ fd' = [fd EXCEPT ![p] = <<f, 0>>]
          ELSE data' = Append(data, <<>>) /\ dir' = [dir EXCEPT ![Name(p)] = Len(data) + 1] /\ fd' = [fd EXCEPT ![p] = <<Len(data) + 1, 0>>]
    /\ pc' = [pc EXCEPT ![p] = "write"]
Put(s, n, x) == [q \in 1..(IF n > Len(s) THEN n ELSE Len(s)) |-> IF q = n THEN x ELSE IF q <= Len(s) THEN s[q] ELSE 99]
Write(p) ==
    /\ pc[p] = "write"
    /\ LET f == fd[p][1] n == fd[p][2] + 1
       IN /\ data' = [data EXCEPT ![f] = Put(@, n, p)]
          /\ fd' = [fd EXCEPT ![p] = <<f, n>>]
          /\ pc' = [pc EXCEPT ![p] = IF n < Pieces THEN "write" ELSE IF Way = "place" THEN "done" ELSE "rename"]
    /\ dir' = dir
Rename(p) ==
    /\ pc[p] = "rename"
    /\ dir' = IF dir[Name(p)] = 0 THEN dir ELSE [dir EXCEPT !["file"] = dir[Name(p)], ![Name(p)] = 0]
    /\ pc' = [pc EXCEPT ![p] = IF dir[Name(p)] = 0 THEN "failed" ELSE "done"]
    /\ UNCHANGED <<data, fd>>
Stop(p) == pc[p] \notin {"done", "failed", "stopped"} /\ pc' = [pc EXCEPT ![p] = "stopped"] /\ UNCHANGED <<dir, data, fd>>
Next == \E p \in Procs : Create(p) \/ Write(p) \/ Rename(p) \/ Stop(p)
(* what anyone sees at any time is whole, and a save that said it was done is there or was followed by another *)
Whole == data[dir["file"]] \in {Old, New(1), New(2)}
Kept == (\E p \in Procs : pc[p] = "done") => data[dir["file"]] # Old
NoneFails == \A p \in Procs : pc[p] # "failed"
=============================================================================
