------------------------------ MODULE EstTrace ------------------------------
(***************************************************************************)
(* A recorded estimation: K.snaps and K.torn as in StoreTrace ("old": the  *)
(* answers are those before, "new": those after the estimation); each state *)
(* also has full: its table is byte for byte the complete new one.         *)
(* K.first: there was no table before; K.start: "new" when the estimation  *)
(* does not change any answer.  K.end: "ok" or the exception.              *)
(***************************************************************************)
EXTENDS CaseList
VARIABLES ci, i, last
vars == <<ci, i, last>>
K == Cases[ci]
Init == ci \in 1..Len(Cases) /\ i = 0 /\ last = Cases[ci].start
Step == i < Len(K.snaps) /\ i' = i + 1 /\ last' = K.snaps[i'].load /\ UNCHANGED ci
Next == Step
Spec == Init /\ [][Next]_vars
States == {K.snaps[k] : k \in 1..Len(K.snaps)} \cup {K.torn[k] : k \in 1..Len(K.torn)}
Clauses ==
    (IF \E x \in States : x.load = "other" THEN {"mixture"} ELSE {})
    \cup (IF K.first /\ (\E x \in States : x.load = "fails" /\ ~x.full) THEN {"stopsworking"} ELSE {})
    \cup (IF K.start # "new" /\ \E k \in 1..(Len(K.snaps) - 1) : K.snaps[k].load # "old" /\ K.snaps[k + 1].load = "old" THEN {"backward"} ELSE {})
    \cup (IF K.end = "ok" /\ last # "new" THEN {"incomplete"} ELSE {})
    \cup (IF K.end # "ok" /\ K.first /\ last = "new" /\ K.start # "new" THEN {"failedbutdone"} ELSE {})
    \cup (IF ~K.fault /\ K.end # "ok" THEN {"raised"} ELSE {})
Report == i = Len(K.snaps) => IF Clauses = {} THEN PrintT("OK " \o ToString(K.id)) ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(Clauses))
=============================================================================
