------------------------------ MODULE Estimate ------------------------------
(***************************************************************************)
(* Adding a table of P(t|w) to a dictionary, with death of the process and *)
(* failing writes at every step.  The dictionary's other files stay.       *)
(* table: "none", "old", "part" or "new"; meta: what the metadata says:    *)
(* "plain" (no table), "old" (there is an earlier table), "part", "new".   *)
(* TableFirst: the metadata is changed after the table is complete.  With  *)
(* FALSE a dictionary without a table stops working before the new table   *)
(* is complete (EstimateMetaFirst.cfg).                                    *)
(***************************************************************************)
EXTENDS Naturals
CONSTANTS TableFirst
VARIABLES table, meta, pc, first
vars == <<table, meta, pc, first>>
Init == /\ pc = "read"          \* reading the corpus, counting
        /\ \/ table = "none" /\ meta = "plain" /\ first = TRUE
           \/ table \in {"old", "part", "new"} /\ meta = "plain" /\ first = TRUE    \* leftovers of an earlier interruption
           \/ table = "old" /\ meta = "old" /\ first = FALSE
Alive == pc \notin {"dead", "done"}
Begin == pc = "read" /\ pc' = (IF TableFirst THEN "table" ELSE "meta") /\ UNCHANGED <<table, meta, first>>
OpenTable == pc = "table" /\ table' = "part" /\ pc' = "table2" /\ UNCHANGED <<meta, first>>
CloseTable == pc = "table2" /\ table' = "new" /\ pc' = (IF TableFirst THEN "meta" ELSE "done") /\ UNCHANGED <<meta, first>>
OpenMeta == pc = "meta" /\ meta' = "part" /\ pc' = "meta2" /\ UNCHANGED <<table, first>>
CloseMeta == pc = "meta2" /\ meta' = "new" /\ pc' = (IF TableFirst THEN "done" ELSE "table") /\ UNCHANGED <<table, first>>
Crash == Alive /\ pc' = "dead" /\ UNCHANGED <<table, meta, first>>
Next == Begin \/ OpenTable \/ CloseTable \/ OpenMeta \/ CloseMeta \/ Crash
Spec == Init /\ [][Next]_vars
(* the answers of the dictionary; without a table in the metadata the table is ignored *)
Load == CASE meta = "part" -> "fails"
          [] meta = "plain" -> "old"
          [] table = "new" -> "new"
          [] table = "old" -> "old"
          [] OTHER -> "fails"
Committed == pc = "done" => Load = "new"
(* a dictionary that had no table keeps working until the whole table is there *)
KeepsWorking == first /\ table # "new" => Load = "old"
(* the earlier answers never come back *)
Forward == [][Load # "old" => Load' # "old"]_vars
=============================================================================
