------------------------------- MODULE TokTrace -------------------------------
(***************************************************************************)
(* Tokenization: a lexer that reads a text character by character, and the *)
(* verdict on the tokens the implementation returned.                      *)
(* cls[ch]: "W" letter or digit, "S" white space; other characters have no *)
(* entry.  Underscore and hyphen belong to words.                          *)
(***************************************************************************)
EXTENDS CaseList
VARIABLES ci, pos, cur, toks
vars == <<ci, pos, cur, toks>>
K == Cases[ci]
Text1 == K.w
Has(ch, c) == ch \in DOMAIN K.cls /\ Contains(K.cls[ch], c)
WordCh(ch) == ch \in {"_", "-"} \/ Has(ch, "W")
Space(ch) == Has(ch, "S")
Flush == IF cur = "" THEN toks ELSE Append(toks, cur)
Init == ci \in 1..Len(Cases) /\ pos = 1 /\ cur = "" /\ toks = <<>>
c == Ch(Text1, pos)
Extend == pos <= Len(Text1) /\ WordCh(c) /\ cur' = cur \o c /\ pos' = pos + 1 /\ UNCHANGED <<ci, toks>>
Skip   == pos <= Len(Text1) /\ ~WordCh(c) /\ Space(c) /\ toks' = Flush /\ cur' = "" /\ pos' = pos + 1 /\ UNCHANGED ci
Single == pos <= Len(Text1) /\ ~WordCh(c) /\ ~Space(c) /\ toks' = Append(Flush, c) /\ cur' = "" /\ pos' = pos + 1 /\ UNCHANGED ci
End    == pos = Len(Text1) + 1 /\ toks' = Flush /\ cur' = "" /\ pos' = pos + 1 /\ UNCHANGED ci
Next == Extend \/ Skip \/ Single \/ End
Spec == Init /\ [][Next]_vars

(* the guarantees, on the model at every step *)
RECURSIVE NoSpace(_)
NoSpace(s) == IF s = "" THEN "" ELSE (IF Space(Ch(s, 1)) /\ ~WordCh(Ch(s, 1)) THEN "" ELSE Ch(s, 1)) \o NoSpace(Drop(s, 1))
Done == pos > Len(Text1) + 1
Lossless == Done => Join(toks, "") = NoSpace(Text1)
Shape == \A i \in 1..Len(toks) :
            \/ \A j \in 1..Len(toks[i]) : WordCh(Ch(toks[i], j))
            \/ Len(toks[i]) = 1 /\ ~Space(toks[i])
(* the guarantees on what was recorded, and equality with the lexer *)
Obs == K.obs.toks
Clauses ==
    IF K.obs.exc # "" THEN {"raised"}
    ELSE (IF Join(Obs, "") # NoSpace(Text1) THEN {"lost"} ELSE {})
         \cup (IF Obs # toks THEN {"tokens"} ELSE {})
Report == Done => LET v == Clauses IN IF v = {} THEN PrintT("OK " \o ToString(K.id))
                                      ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(v) \o " exp " \o ToString(toks))
=============================================================================
