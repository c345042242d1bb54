----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* A recorded conversion: K.snaps, the states of the folder in the order   *)
(* they were seen on disk, and what loading gave for each (by any backend):*)
(* "fails", "old", "new" or "other" (loaded, but neither dictionary).      *)
(* K.torn: states in which one file is cut short.  K.end: "ok" or the      *)
(* exception of the conversion; K.start: what the folder held before ("new":  *)
(* the very same dictionary, which then may become unloadable for a while).*)
(***************************************************************************)
EXTENDS CaseList
VARIABLES ci, i, last
vars == <<ci, i, last>>
K == Cases[ci]
Rank(x) == CASE x = "old" -> 0 [] x = "fails" -> 1 [] OTHER -> 2
Init == ci \in 1..Len(Cases) /\ i = 0 /\ last = Cases[ci].start
Step == i < Len(K.snaps) /\ i' = i + 1 /\ last' = K.snaps[i'].load /\ UNCHANGED ci
Next == Step
Spec == Init /\ [][Next]_vars
Seen == {K.snaps[k].load : k \in 1..Len(K.snaps)} \cup {K.torn[k].load : k \in 1..Len(K.torn)}
Clauses ==
    (IF "other" \in Seen THEN {"wrong"} ELSE {})
    \cup (IF K.start # "new" /\ \E k \in 1..(Len(K.snaps) - 1) : Rank(K.snaps[k].load) > Rank(K.snaps[k + 1].load) THEN {"backward"} ELSE {})
    \cup (IF K.end = "ok" /\ last # "new" THEN {"incomplete"} ELSE {})
Report == i = Len(K.snaps) => IF Clauses = {} THEN PrintT("OK " \o ToString(K.id)) ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(Clauses))
=============================================================================
