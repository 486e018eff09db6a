-------------------------------- MODULE Fan ---------------------------------
(***************************************************************************)
(* Evaluation of the specification over a recorded batch of inputs.        *)
(* The state space is a two-level tree (root, chunks, cases), so TLC's     *)
(* workers share the cases.  Modules extending this one say what a case    *)
(* means.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLE k
Inputs == ndJsonDeserialize(IOEnv.VERIF_IN)
NInputs == Len(Inputs)
ChunkSize == LET c == (NInputs \div 64) + 1 IN IF c > 50 THEN 50 ELSE c
FanInit == k = 0
FanNext ==
    \/ k = 0 /\ k' \in {0 - c : c \in 1..((NInputs + ChunkSize - 1) \div ChunkSize)}
    \/ k < 0 /\ k' \in (((0 - k) - 1) * ChunkSize + 1)..
                       (IF (0 - k) * ChunkSize > NInputs THEN NInputs ELSE (0 - k) * ChunkSize)
Report(e) == PrintT("@@" \o ToJson([k |-> k, e |-> e]))
=============================================================================
