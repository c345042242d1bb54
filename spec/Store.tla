-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Writing a dictionary into a folder, with death of the process and       *)
(* failing writes at every step, and loading what is there afterwards.     *)
(* Data files may be written in any order; the metadata file commits.      *)
(* fs[f]: "none", "old", "part" (being written) or "new".                  *)
(* RemoveFirst: an old metadata file is removed before anything is written *)
(* (with FALSE, TLC finds the mixture of two dictionaries).                *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Data, RemoveFirst
VARIABLES fs, meta, pc, over
vars == <<fs, meta, pc, over>>
Init == /\ over \in BOOLEAN
        /\ pc = "start"
        /\ \/ meta = "none" /\ fs = [f \in Data |-> "none"]
           \/ over /\ meta = "old" /\ fs = [f \in Data |-> "old"]
           \/ over /\ meta = "none" /\ fs \in [Data -> {"none", "old", "part"}]      \* after an earlier interruption
Alive == pc \notin {"dead", "done"}
Begin == pc = "start" /\ pc' = "data" /\ meta' = (IF RemoveFirst THEN "none" ELSE meta) /\ UNCHANGED <<fs, over>>
Open(f) == pc = "data" /\ fs[f] # "new" /\ fs' = [fs EXCEPT ![f] = "part"] /\ UNCHANGED <<meta, pc, over>>
Close(f) == pc = "data" /\ fs[f] = "part" /\ fs' = [fs EXCEPT ![f] = "new"] /\ UNCHANGED <<meta, pc, over>>
OpenMeta == pc = "data" /\ (\A f \in Data : fs[f] = "new") /\ meta' = "part" /\ pc' = "meta" /\ UNCHANGED <<fs, over>>
CloseMeta == pc = "meta" /\ meta' = "new" /\ pc' = "done" /\ UNCHANGED <<fs, over>>
Crash == Alive /\ pc' = "dead" /\ UNCHANGED <<fs, meta, over>>
Next == Begin \/ (\E f \in Data : Open(f) \/ Close(f)) \/ OpenMeta \/ CloseMeta \/ Crash
Spec == Init /\ [][Next]_vars
(* what loading gives *)
Load == IF meta \in {"none", "part"} \/ \E f \in Data : fs[f] \in {"none", "part"} THEN "fails"
        ELSE IF meta = "new" /\ \A f \in Data : fs[f] = "new" THEN "new"
        ELSE IF meta = "old" /\ \A f \in Data : fs[f] = "old" THEN "old"
        ELSE "other"
NeverWrong == Load # "other"
Committed == pc = "done" => Load = "new"
(* loading never goes back: old, then nothing, then new *)
Rank(x) == CASE x = "old" -> 0 [] x = "fails" -> 1 [] OTHER -> 2
Forward == [][Rank(Load) <= Rank(Load')]_vars
=============================================================================
