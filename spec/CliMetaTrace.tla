---------------------------- MODULE CliMetaTrace ----------------------------
(***************************************************************************)
(* "pymorphy dict meta": K.lines printed, K.meta: the entries <<key, text>> *)
(* of the dictionary's meta.json in their order ("?" for a value that is   *)
(* not a plain one: only its key is looked at).  Other lines may come in   *)
(* between.                                                                *)
(***************************************************************************)
EXTENDS CaseList, Text
VARIABLES ci, n, k
vars == <<ci, n, k>>
K == Cases[ci]
IsEntry(line, e) == IF e[2] = "?" THEN StartsWith(line, e[1] \o ": ") ELSE line = e[1] \o ": " \o e[2]
Init == ci \in 1..Len(Cases) /\ n = 0 /\ k = 0
Line == /\ n < Len(K.lines) /\ n' = n + 1 /\ UNCHANGED ci
        /\ k' = IF k < Len(K.meta) /\ IsEntry(K.lines[n + 1], K.meta[k + 1]) THEN k + 1 ELSE k
Next == Line
Spec == Init /\ [][Next]_vars
Clauses == IF K.exc # "" THEN {"raised"}
           ELSE (IF k < Len(K.meta) THEN {"missing " \o K.meta[k + 1][1]} ELSE {})
                \cup {"twice " \o K.meta[j][1] : j \in {m \in 1..Len(K.meta) : Cardinality({i \in 1..Len(K.lines) : StartsWith(K.lines[i], K.meta[m][1] \o ": ")}) > 1}}
Report == n = Len(K.lines) => IF Clauses = {} THEN PrintT("OK " \o ToString(K.id)) ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(Clauses))
=============================================================================
