------------------------------ MODULE CaseTrace ------------------------------
(***************************************************************************)
(* Restoring capitalization, part by part.                                 *)
(* m[ch] = <<lower, upper, title, fold, kind>>; kind is "l", "u", "t"      *)
(* (title-case letter) or "" (has no case).  Characters that case does not *)
(* change have no entry.                                                   *)
(***************************************************************************)
EXTENDS CaseList
VARIABLES ci, i, out
vars == <<ci, i, out>>
K == Cases[ci]
M(ch, n) == IF ch \in DOMAIN K.m THEN K.m[ch][n] ELSE IF n = 5 THEN "" ELSE ch
Kind(s, j) == M(Ch(s, j), 5)
RECURSIVE MapStr(_, _)
MapStr(s, n) == IF s = "" THEN "" ELSE M(Ch(s, 1), n) \o MapStr(Drop(s, 1), n)
Lower(s) == MapStr(s, 1)
Upper(s) == MapStr(s, 2)
(* the first letter of every run of letters *)
Title(s) == LET RECURSIVE F(_)
                F(j) == IF j > Len(s) THEN ""
                        ELSE M(Ch(s, j), IF j > 1 /\ Kind(s, j - 1) # "" THEN 1 ELSE 3) \o F(j + 1)
            IN  F(1)
Fold(s) == MapStr(s, 4)
IsLowerS(s) == (\E j \in 1..Len(s) : Kind(s, j) = "l") /\ \A j \in 1..Len(s) : Kind(s, j) \in {"", "l"}
IsUpperS(s) == (\E j \in 1..Len(s) : Kind(s, j) = "u") /\ \A j \in 1..Len(s) : Kind(s, j) \in {"", "u"}
IsTitleS(s) == /\ \E j \in 1..Len(s) : Kind(s, j) # ""
               /\ \A j \in 1..Len(s) : LET after == j > 1 /\ Kind(s, j - 1) # "" IN
                     CASE Kind(s, j) \in {"u", "t"} -> ~after
                       [] Kind(s, j) = "l" -> after
                       [] OTHER -> TRUE
Like(s, ex) == CASE IsLowerS(ex) -> Lower(s) [] IsUpperS(ex) -> Upper(s) [] IsTitleS(ex) -> Title(s) [] OTHER -> Lower(s)

Hyph == Contains(K.ex, "-")
WP == Split(K.w, "-")
EP == Split(K.ex, "-")
Init == ci \in 1..Len(Cases) /\ i = 0 /\ out = <<>>
Whole == i = 0 /\ ~Hyph /\ out' = <<Like(K.w, K.ex)>> /\ i' = Len(WP) + 1 /\ UNCHANGED ci
Start == i = 0 /\ Hyph /\ i' = 1 /\ UNCHANGED <<ci, out>>
Aligned == i > 0 /\ i <= Len(WP) /\ i <= Len(EP) /\ out' = Append(out, Like(WP[i], EP[i])) /\ i' = i + 1 /\ UNCHANGED ci
Rest    == i > 0 /\ i <= Len(WP) /\ i > Len(EP) /\ out' = Append(out, Lower(WP[i])) /\ i' = i + 1 /\ UNCHANGED ci
Next == Whole \/ Start \/ Aligned \/ Rest
Spec == Init /\ [][Next]_vars
Done == i > Len(WP)
R == Join(out, "-")
CaseOnly == Done => (Fold(R) = Fold(K.w) \/ K.odd)
(* a word capitalized part by part in one of the three ways is its own restoration *)
Regular(s) == \/ (IsLowerS(s) /\ Lower(s) = s)
              \/ (IsUpperS(s) /\ Upper(s) = s)
              \/ (IsTitleS(s) /\ Title(s) = s)
              \/ (\A j \in 1..Len(s) : Kind(s, j) = "")
Own == (Done /\ K.w = K.ex /\ (IF Hyph THEN \A j \in 1..Len(WP) : Regular(WP[j]) ELSE Regular(K.w)) /\ ~K.odd) => R = K.w
Clauses == IF K.obs.exc # "" THEN {"raised"}
           ELSE (IF K.obs.r # R THEN {"case"} ELSE {}) \cup (IF ~K.odd /\ Fold(K.obs.r) # Fold(K.w) THEN {"letters"} ELSE {})
Report == Done => LET v == Clauses IN IF v = {} THEN PrintT("OK " \o ToString(K.id))
                                      ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(v) \o " exp " \o R)
=============================================================================
