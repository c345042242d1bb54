------------------------------ MODULE ProbTrace ------------------------------
(***************************************************************************)
(* Building the P(t|w) table from a disambiguated corpus.                  *)
(* K.tags[t] = [g |-> grammemes]; K.words[w] = [low, many, tags]: index of *)
(* the lower-cased word, number of its tags, its tags (as analysed without *)
(* a table); K.occ[i] = [w, parses]: an occurrence with the grammemes of   *)
(* the readings left by the annotators; K.min: the minimum frequency.      *)
(* Observed: K.table, rows <<word, tag, millionths>> (0: not one of the    *)
(* words/tags); K.meta; K.scores[w], what the analyzer then says.          *)
(***************************************************************************)
EXTENDS CaseList, FiniteSetsExt, SequencesExt
VARIABLES ci, i, cnt
vars == <<ci, i, cnt>>
K == Cases[ci]
Init == ci \in 1..Len(Cases) /\ i = 0 /\ cnt = <<>>
Short(g) == CASE g = "loc1" -> "loct" [] g = "gen1" -> "gent" [] g = "acc1" -> "accs" [] OTHER -> g
Grams(p) == {Short(p[k]) : k \in 1..Len(p)}
Counts(o) == /\ Len(o.parses) = 1                    \* fully disambiguated
             /\ K.words[o.w].many > 1                \* ambiguous for the analyzer
             /\ Grams(o.parses[1]) # {"UNKN"}
(* one occurrence of the corpus *)
Read == /\ i < Len(K.occ)
        /\ i' = i + 1
        /\ LET o == K.occ[i + 1] IN
             IF ~Counts(o) THEN cnt' = cnt
             ELSE LET k == <<K.words[o.w].low, Grams(o.parses[1])>> IN
                  cnt' = IF k \in DOMAIN cnt THEN [cnt EXCEPT ![k] = @ + 1] ELSE (k :> 1) @@ cnt
        /\ UNCHANGED ci
Next == Read
Spec == Init /\ [][Next]_vars

Count(w, g) == IF <<w, g>> \in DOMAIN cnt THEN cnt[<<w, g>>] ELSE 0
Seen == {k[1] : k \in DOMAIN cnt}
Samples(w) == {k[2] : k \in {x \in DOMAIN cnt : x[1] = w}}
N(w) == MapThenSumSet(LAMBDA g : cnt[<<w, g>>], Samples(w))
Bins(w) == Max({K.words[w].many, Cardinality(Samples(w))})
G(t) == ToSet(K.tags[t].g)
WTags(w) == ToSet(K.words[w].tags)
InTable(w) == w \in Seen /\ N(w) >= K.min /\ \E s, t \in WTags(w) : Count(w, G(s)) # Count(w, G(t))
Million(w, t) == (1000000 * (Count(w, G(t)) + 1)) \div (N(w) + Bins(w))
(* a whole number of millionths may be stored as one less: it is computed in floating point *)
Value(w, t, v) == \/ v = Million(w, t)
                  \/ (v = Million(w, t) - 1 /\ (1000000 * (Count(w, G(t)) + 1)) % (N(w) + Bins(w)) = 0)
Keys == {<<w, t>> : w \in {x \in Seen : InTable(x)}, t \in 1..Len(K.tags)}
Expected == {k \in Keys : k[2] \in WTags(k[1])}
Rows == {<<K.table[r][1], K.table[r][2]>> : r \in 1..Len(K.table)}
Row(w, t) == K.table[CHOOSE r \in 1..Len(K.table) : K.table[r][1] = w /\ K.table[r][2] = t][3]
(* estimates are a probability distribution when the readings are those of the analyzer *)
Distribution == \A w \in Seen : LET s == MapThenSumSet(LAMBDA t : Million(w, t), WTags(w)) IN
                   s <= 1000000 + 1 \/ \E s1, t1 \in WTags(w) : s1 # t1 /\ G(s1) = G(t1)
Clauses ==
    IF K.exc # "" THEN {"raised"} ELSE
    (IF Expected \ Rows # {} THEN {"missing"} ELSE {})
    \cup (IF Rows \ Expected # {} THEN {"extra"} ELSE {})
    \cup (IF \E r \in 1..Len(K.table) : <<K.table[r][1], K.table[r][2]>> \in Expected /\ ~Value(K.table[r][1], K.table[r][2], K.table[r][3]) THEN {"value"} ELSE {})
    \cup (IF K.meta.ptw /\ K.meta.words = Cardinality(Seen) /\ K.meta.outcomes = MapThenSumSet(LAMBDA w : N(w), Seen) /\ K.meta.min = K.min THEN {} ELSE {"meta"})
    \cup (IF K.meta.kept THEN {} ELSE {"metalost"})
    \cup UNION {LET low == K.words[x.w].low IN
         (IF \E s \in 1..Len(x.tags) : <<low, x.tags[s]>> \in Rows /\ Row(low, x.tags[s]) > 0
          THEN (IF \E s \in 1..Len(x.tags) : x.vals[s] # (IF <<low, x.tags[s]>> \in Rows THEN Row(low, x.tags[s]) ELSE 0) THEN {"score"} ELSE {})
               \cup (IF ~x.ordered THEN {"order"} ELSE {})
          ELSE LET s == FoldLeft(LAMBDA a, b : a + b, 0, x.vals) IN IF s < 999000 \/ s > 1001000 THEN {"score"} ELSE {}) : x \in ToSet(K.scores)}
Report == i = Len(K.occ) => LET v == Clauses IN IF v = {} THEN PrintT("OK " \o ToString(K.id)) ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(v))
=============================================================================
