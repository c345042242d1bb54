----------------------------- MODULE QueryTrace -----------------------------
(* Membership (word_is_known, Parse.is_known) and dictionary iteration.     *)
EXTENDS Setup

VARIABLES ci, ph
Init == ci \in 1..Len(Cases) /\ ph = "query"
K == Cases[ci]
Obs == K.obs
C == Configs[K.cfg]
D == IF K.di > 0 THEN Dicts[K.di] ELSE K.d

Known(w) == Similar(DOMAIN D.words, w, C.subst) # <<>>
KnownClauses ==
    (IF Obs.exc # "" THEN {"raised"} ELSE
      (IF Obs.known # Known(K.low) THEN {"known"} ELSE {})
      \cup (IF Obs.strict # (K.low \in DOMAIN D.words) THEN {"strict"} ELSE {})
      \cup (IF \E i \in 1..Len(Obs.pk) : Obs.pk[i][2] # (Similar(ToSet(K.kwords), Obs.pk[i][1], C.subst) # <<>>)
            THEN {"isknown"} ELSE {}))

(* iteration: one parse per lexicon entry (word, lexeme, form) *)
Entries == UNION {{<<w, K.words[w][j][1], K.words[w][j][2]>> : j \in 1..Len(K.words[w])} : w \in DOMAIN K.words}
ExpIter == LET R(e) == LET r == DictResult(e[1], e[2], e[3]) IN <<r.w, Tags[r.t].s, r.nf, Len(Paras[e[2]])>>
           IN  {<<e, R(e)>> : e \in Entries}
CountIn(x, q) == Cardinality({i \in 1..Len(q) : q[i] = x})
CountExp(x) == Cardinality({e \in ExpIter : e[2] = x})
ObsIter == [i \in 1..Len(Obs.parses) |-> <<Obs.parses[i][1], Obs.parses[i][2], Obs.parses[i][3], Obs.parses[i][5]>>]
IterClauses ==
    IF Obs.exc # "" THEN {"raised"}
    ELSE LET X == {e[2] : e \in ExpIter}
             O == ToSet(ObsIter)
         IN  (IF X \ O # {} THEN {"itermissing"} ELSE {})
             \cup (IF O \ X # {} THEN {"iterextra"} ELSE {})
             \cup (IF \E x \in X : CountIn(x, ObsIter) # CountExp(x) THEN {"itercount"} ELSE {})
             \cup (IF \E i \in 1..Len(Obs.parses) : Obs.parses[i][4] # ONE THEN {"iterscore"} ELSE {})
             \cup (IF \E i \in 1..Len(Obs.parses) : ~Obs.parses[i][6] THEN {"iterself"} ELSE {})

Next == ph = "query" /\ ph' = "done" /\ UNCHANGED ci
Spec == Init /\ [][Next]_<<ci, ph>>
Verdict == IF K.op = "known" THEN KnownClauses ELSE IterClauses
Report == ph = "done" =>
    LET v == Verdict IN
    IF v = {} THEN PrintT("OK " \o ToString(K.id))
    ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(v) \o " exp " \o
                (IF K.op = "known" THEN ToString(Similar(DOMAIN D.words, K.low, C.subst)) ELSE ToString({e[2] : e \in ExpIter})))
=============================================================================
