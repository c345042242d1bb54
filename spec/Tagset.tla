------------------------------- MODULE Tagset -------------------------------
(***************************************************************************)
(* Grammatical tags: sequences of grammemes, their categories, the rules   *)
(* used by inflection, and Latin/Cyrillic translation.                     *)
(* Grammeme tables are sequences of <<name, parent, alias, description>>.  *)
(***************************************************************************)
EXTENDS Text

POS_SET == {"NOUN","ADJF","ADJS","COMP","VERB","INFN","PRTF","PRTS","GRND",
            "NUMR","ADVB","NPRO","PRED","PREP","CONJ","PRCL","INTJ"}
CATEGORY == [
  POS          |-> POS_SET,
  animacy      |-> {"anim","inan"},
  aspect       |-> {"perf","impf"},
  case         |-> {"nomn","gent","datv","accs","ablt","loct","voct","gen1","gen2","acc2","loc1","loc2"},
  gender       |-> {"masc","femn","neut"},
  involvement  |-> {"incl","excl"},
  mood         |-> {"indc","impr"},
  number       |-> {"sing","plur"},
  person       |-> {"1per","2per","3per"},
  tense        |-> {"pres","past","futr"},
  transitivity |-> {"tran","intr"},
  voice        |-> {"actv","pssv"} ]

NON_PRODUCTIVE == {"NUMR","NPRO","PRED","PREP","CONJ","PRCL","INTJ","Apro"}

RARE == [gen1 |-> "gent", gen2 |-> "gent", acc1 |-> "accs", acc2 |-> "accs",
         loc1 |-> "loct", loc2 |-> "loct", voct |-> "nomn"]
FixRare(G) == {IF g \in DOMAIN RARE THEN RARE[g] ELSE g : g \in G}

(* the grammeme sequence of a tag string: the first space separates too *)
TagSeq(s) == LET p == FirstPos(s, " ")
                 t == IF p = 0 THEN s ELSE Take(s, p - 1) \o "," \o Drop(s, p)
             IN  Split(t, ",")
Grammemes(s) == ToSet(TagSeq(s))

(* a tag's grammeme of a category: the set of candidates *)
InCategory(G, cat) == G \cap CATEGORY[cat]
Attr(G, cat) == LET X == InCategory(G, cat) IN IF X = {} THEN "" ELSE CHOOSE x \in X : TRUE

Productive(G) == G \cap NON_PRODUCTIVE = {}
UnknownPOS(gs) == gs[1] \notin POS_SET

Replace(G, map) == {IF g \in DOMAIN map THEN map[g] ELSE g : g \in G}

(* features two halves of a compound must share *)
FEATURES == POS_SET \cup CATEGORY.number \cup CATEGORY.case \cup CATEGORY.person \cup CATEGORY.tense
Features(G) == Replace(G \cap FEATURES, [gen1 |-> "gent", loc1 |-> "loct"])
(* grammemes considered the same when pairing forms of two lexemes *)
Paired(G) == Replace(G, [gen1 |-> "gent", loc1 |-> "loct"] @@ ("V-oy" :> "V-ey"))

SymDiff(A, B) == (A \ B) \cup (B \ A)

(***************************************************************************)
(* Grammeme hierarchy                                                      *)
(***************************************************************************)
Names(gt)     == {gt[i][1] : i \in DOMAIN gt}
LastIdx(gt, n) == MaxOf({i \in DOMAIN gt : gt[i][1] = n})
ParentOf(gt, n) == IF n \in Names(gt) THEN gt[LastIdx(gt, n)][2] ELSE ""
(* children and grandchildren of a grammeme *)
Children(gt, p) ==
    IF p = "" THEN {}
    ELSE {gt[i][1] : i \in {k \in DOMAIN gt : gt[k][2] = p \/ (gt[k][2] # "" /\ ParentOf(gt, gt[k][2]) = p)}}
(* plural excludes gender *)
ExtraIncompatible(gt, n) == IF n = "plur" THEN {"GNdr"} \cup Children(gt, "GNdr") ELSE {}
Incompatible(gt, n) ==
    IF n \in Names(gt)
    THEN (ExtraIncompatible(gt, n) \cup Children(gt, ParentOf(gt, n))) \ {n}
    ELSE {}

RECURSIVE UnionAll(_)
UnionAll(S) == IF S = {} THEN {} ELSE LET x == CHOOSE y \in S : TRUE IN x \cup UnionAll(S \ {x})

(***************************************************************************)
(* Inflection: index of the chosen form in a list of grammeme sets         *)
(* (0 = no form).  inc is a function grammeme -> incompatible grammemes.   *)
(***************************************************************************)
Target(G, req, Inc(_)) == (G \cup req) \ UnionAll({Inc(g) : g \in req})
(* Note: a required grammeme may itself be removed when two required       *)
(* grammemes are incompatible; that is what the code does too.             *)
Similarity(F, T) == 10 * Cardinality(T \cap F) - Cardinality(SymDiff(T, F))
FirstBest(cands, forms, T) ==
    LET best == MaxOf({Similarity(forms[i], T) : i \in cands})
    IN  MinOf({i \in cands : Similarity(forms[i], T) = best})
InflectIndex(G, forms, req, Inc(_)) ==
    LET c1   == {i \in DOMAIN forms : req \subseteq forms[i]}
        req2 == IF c1 # {} THEN req ELSE FixRare(req)
        c2   == IF c1 # {} THEN c1 ELSE {i \in DOMAIN forms : req2 \subseteq forms[i]}
    IN  IF c2 = {} THEN 0 ELSE FirstBest(c2, forms, Target(G, req2, Inc))
(* does inflect() complain about unknown grammemes? *)
InflectError(forms, req, known) ==
    LET c1   == {i \in DOMAIN forms : req \subseteq forms[i]}
        req2 == IF c1 # {} THEN req ELSE FixRare(req)
    IN  ~(req2 \subseteq known)

(***************************************************************************)
(* Agreement with numerals                                                 *)
(***************************************************************************)
NumClass(m10, m100) ==
    IF m10 = 1 /\ m100 # 11 THEN "one"
    ELSE IF m10 \in 2..4 /\ ~(m100 \in 12..14) THEN "few" ELSE "many"
Agreement(G, m10, m100) ==
    LET pos == Attr(G, "POS")
        cs  == Attr(G, "case")
        k   == NumClass(m10, m100)
    IN  IF pos \notin {"NOUN", "ADJF", "PRTF"} THEN {}
        ELSE IF pos = "NOUN" /\ cs \notin {"nomn", "accs"}
             THEN {IF k = "one" THEN "sing" ELSE "plur", cs}
        ELSE IF k = "one" THEN {"sing", IF cs = "nomn" THEN "nomn" ELSE "accs"}
        ELSE IF k = "few" /\ pos = "NOUN" THEN {"sing", "gent"}
        ELSE IF k = "few" /\ Attr(G, "gender") = "femn" THEN {"plur", "nomn"}
        ELSE {"plur", "gent"}

(***************************************************************************)
(* Translation                                                             *)
(***************************************************************************)
IsWs(ch) == ch \in {" ", "\t", "\n", "\r", "\f"}
RECURSIVE WsTokens(_)
WsTokens(s) ==
    LET nonws == {i \in 1..Len(s) : ~IsWs(Ch(s, i))}
    IN  IF nonws = {} THEN <<>>
        ELSE LET a    == MinOf(nonws)
                 after == {i \in a..Len(s) : IsWs(Ch(s, i))}
                 b    == IF after = {} THEN Len(s) ELSE MinOf(after) - 1
             IN  <<Sub(s, a, b)>> \o WsTokens(Drop(s, b))
(* map: function from grammeme to its translation *)
TransTok(map, g) == IF g \in DOMAIN map THEN map[g] ELSE g
TransPart(map, part) == LET F(g) == TransTok(map, g) IN Join(Map(Split(part, ","), F), ",")
Translate(map, s) == LET F(p) == TransPart(map, p) IN Join(Map(WsTokens(s), F), " ")
=============================================================================
