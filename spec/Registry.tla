------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The table of known grammemes, shared by all analyzers of a process, at  *)
(* the granularity of the single reads and assignments that constructing   *)
(* an analyzer consists of: the dictionary loader replaces the table, the  *)
(* units then add their own grammemes one by one.  Several threads         *)
(* construct analyzers; those already constructed are being used.          *)
(*                                                                         *)
(* Design: "good"     new table prepared from the dictionary and from what *)
(*                    units have registered, assigned at once, under a lock*)
(*         "nolock"   the same without a lock (a lost update)              *)
(*         "forget"   the dictionary's grammemes only                      *)
(*         "inplace"  the table is cleared and filled                      *)
(* TLC finds the loss in every design but the first.                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Dict, Units, Design
VARIABLES known, extra, pc, tmp, todo, lock
vars == <<known, extra, pc, tmp, todo, lock>>
Init == /\ known = {} /\ extra = {} /\ lock = 0
        /\ pc = [t \in Threads |-> "idle"] /\ tmp = [t \in Threads |-> {}]
        /\ todo \in [Threads -> SUBSET Units]
Go(t, a, b) == pc[t] = a /\ pc' = [pc EXCEPT ![t] = b]
Own(t) == todo[t]
Locked == Design # "nolock"
Start(t) == Go(t, "idle", "load") /\ (Locked => lock = 0) /\ lock' = (IF Locked THEN t ELSE lock) /\ UNCHANGED <<known, extra, tmp, todo>>
Prepare(t) == /\ Go(t, "load", "assign")
              /\ tmp' = [tmp EXCEPT ![t] = Dict \cup (IF Design = "forget" THEN {} ELSE extra)]
              /\ known' = IF Design = "inplace" THEN {} ELSE known
              /\ UNCHANGED <<extra, todo, lock>>
Assign(t) == Go(t, "assign", "units") /\ known' = tmp[t] /\ tmp' = [tmp EXCEPT ![t] = Own(t)] /\ UNCHANGED <<extra, todo, lock>>
(* tmp[t]: grammemes of the units yet to be added *)
Add(t) == /\ pc[t] = "units" /\ \E g \in tmp[t] :
                /\ pc' = [pc EXCEPT ![t] = g]
                /\ extra' = extra \cup {g}
          /\ UNCHANGED <<known, tmp, todo, lock>>
Added(t) == /\ pc[t] \in Units /\ tmp' = [tmp EXCEPT ![t] = @ \ {pc[t]}]
            /\ known' = known \cup {pc[t]}
            /\ pc' = [pc EXCEPT ![t] = "units"] /\ UNCHANGED <<extra, todo, lock>>
Finish(t) == pc[t] = "units" /\ tmp[t] = {} /\ pc' = [pc EXCEPT ![t] = "live"] /\ lock' = (IF Locked THEN 0 ELSE lock) /\ UNCHANGED <<known, extra, tmp, todo>>
Next == \E t \in Threads : Start(t) \/ Prepare(t) \/ Assign(t) \/ Add(t) \/ Added(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Live == {t \in Threads : pc[t] = "live"}
(* what a live analyzer needs is always there, whatever the other threads are doing *)
NoLoss == \A t \in Live : Dict \cup Own(t) \subseteq known
(* and nothing else appears *)
NoJunk == known \subseteq Dict \cup UNION {Own(t) : t \in {x \in Threads : pc[x] # "idle"}}
Remembered == known \cap Units \subseteq extra \cup UNION {Own(t) : t \in {x \in Threads : pc[x] \notin {"idle", "live"}}}
AllLive == <>(Live = Threads)
=============================================================================
