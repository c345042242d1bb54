----------------------------- MODULE ParseTrace -----------------------------
(***************************************************************************)
(* The analysis pipeline as a state machine, one action per analysis unit, *)
(* run on every recorded call of the implementation (one initial state per *)
(* recorded call), and the verdict on what the implementation returned.    *)
(***************************************************************************)
EXTENDS Setup


VARIABLES ci,    \* the recorded call
          ph,    \* "run" while units are tried, then "done"
          ui,    \* next unit
          seen,  \* duplicates known so far
          res    \* results so far
vars == <<ci, ph, ui, seen, res>>

C == Configs[Cases[ci].cfg]
D == IF Cases[ci].di > 0 THEN Dicts[Cases[ci].di] ELSE Cases[ci].d
cls == Cases[ci].cls
word == Cases[ci].w
low == Cases[ci].low

Init == ci \in 1..Len(Cases) /\ ph = "run" /\ ui = 1 /\ seen = {} /\ res = <<>>

RunUnit(k) ==
    /\ ph = "run" /\ ui <= Len(C.units) /\ C.units[ui].k = k
    /\ LET x == UnitParse(C, D, cls, C.units[ui], word, low, seen)
           a == res \o x.res
       IN  IF C.units[ui].term /\ Len(a) > 0
           THEN ph' = "done" /\ res' = ApplyProb(C, D, low, a) /\ UNCHANGED <<seen, ui>>
           ELSE res' = a /\ seen' = x.seen /\ ui' = ui + 1 /\ UNCHANGED ph
    /\ UNCHANGED ci
Exhausted == ph = "run" /\ ui > Len(C.units) /\ ph' = "done"
             /\ res' = ApplyProb(C, D, low, res) /\ UNCHANGED <<ci, ui, seen>>

RunDict == RunUnit("dict")
RunFirstName == RunUnit("fname")
RunPatronymic == RunUnit("patr")
RunNumber == RunUnit("number")
RunPunct == RunUnit("punct")
RunRoman == RunUnit("roman")
RunLatin == RunUnit("latin")
RunParticle == RunUnit("part")
RunAdverb == RunUnit("adverb")
RunCompound == RunUnit("comp")
RunKnownPrefix == RunUnit("kpref")
RunUnknownPrefix == RunUnit("upref")
RunKnownSuffix == RunUnit("suf")
RunUnkn == RunUnit("unkn")
Next == RunDict \/ RunFirstName \/ RunPatronymic \/ RunNumber \/ RunPunct \/ RunRoman \/ RunLatin
        \/ RunParticle \/ RunAdverb \/ RunCompound \/ RunKnownPrefix \/ RunUnknownPrefix
        \/ RunKnownSuffix \/ RunUnkn \/ Exhausted
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* Properties of the design itself, checked on every state                 *)
(***************************************************************************)
UnknTag == TagIx["UNKN"]
HasUnknLast == Len(C.units) > 0 /\ C.units[Len(C.units)].k = "unkn"
NonEmpty     == (ph = "done" /\ HasUnknLast) => Len(res) > 0
(* the UNKN rule itself fires only when nothing else did, unless it shares its group with rules after it or rules
   whose results are not among the duplicates remembered (dictionary, initials, shapes) *)
Remembering   == {"part", "adverb", "comp", "kpref", "upref", "suf"}
UnknNoCompany == \A i \in 1..Len(C.units) : C.units[i].k = "unkn" =>
                   C.units[i].term /\ (i = 1 \/ C.units[i-1].term \/ C.units[i-1].k \in Remembering)
                   /\ (i < 3 \/ C.units[i-1].term \/ C.units[i-2].term \/ C.units[i-2].k \in Remembering)
                   /\ (i < 4 \/ C.units[i-1].term \/ C.units[i-2].term \/ C.units[i-3].term)
UnknAlone    == (ph = "done" /\ UnknNoCompany) => ((\E i \in 1..Len(res) : res[i].t = UnknTag /\ Len(res[i].prov) = 1) => Len(res) = 1)
ScoresRange  == (ph = "done" /\ Cases[ci].std) => \A i \in 1..Len(res) : res[i].sc >= 0 /\ res[i].sc <= ONE
HasProb(i)   == low \in DOMAIN D.prob /\ Tags[res[i].t].s \in DOMAIN D.prob[low] /\ D.prob[low][Tags[res[i].t].s] > 0
AnyProb      == C.useprob /\ \E i \in 1..Len(res) : HasProb(i)
Ranked       == (ph = "done" /\ AnyProb) => \A i \in 1..(Len(res) - 1) : res[i].sc >= res[i+1].sc
SumsToOne    == (ph = "done" /\ C.useprob /\ ~AnyProb /\ Len(res) > 0) =>
                   LET s == SumSeq([i \in 1..Len(res) |-> res[i].sc])
                   IN  s <= ONE /\ s >= ONE - 10 * Len(res)
SelfConsistent ==   \* the pipeline agrees with the recursive definition used for nested parts
    ph = "done" => res = Parse(C, D, cls, word, low)

(***************************************************************************)
(* Verdict on the recorded result                                          *)
(***************************************************************************)
Obs == Cases[ci].obs
NObs == Len(Obs.parse)
Key3(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2], q[i][3]>>]
Exp3 == [i \in 1..Len(res) |-> <<res[i].w, Tags[res[i].t].s, res[i].nf>>]
Obs3 == Key3(Obs.parse)
ObsTags == ToSet(Obs.tag)
ParseTags == {Obs.parse[i][2] : i \in 1..NObs}
(* tags that are written differently may be the same tag *)
CanonStr(s) == TagSeq(s)
CanonSet(S) == {CanonStr(s) : s \in S}

NormalForms(q) == LET nf(i) == q[i][3]
                      firsts == {i \in 1..Len(q) : \A j \in 1..(i-1) : nf(j) # nf(i)}
                      RECURSIVE Asc(_)
                      Asc(S) == IF S = {} THEN <<>> ELSE <<nf(MinOf(S))>> \o Asc(S \ {MinOf(S)})
                  IN  Asc(firsts)

ProbOf(s) == IF low \in DOMAIN D.prob /\ s \in DOMAIN D.prob[low] THEN D.prob[low][s] ELSE 0
MatchScore(i) == LET d == res[i].sc - Obs.parse[i][4]
                     t == TOL + res[i].er
                 IN  res[i].er >= ErrCap \/ (d <= t /\ -d <= t)

(* the sum of the observed scores, at most 2 (32-bit arithmetic) *)
RECURSIVE Saturated(_, _)
Saturated(acc, i) == IF i > NObs \/ acc > 2 * ONE \/ acc < 0 THEN acc ELSE Saturated(acc + Min2(Obs.parse[i][4], 2 * ONE), i + 1)

Clauses ==
    IF Obs.exc # "" THEN {"raised"}
    ELSE
    LET same3 == Exp3 = Obs3
        bag3  == SameBag(Exp3, Obs3)
    IN  (IF NObs = 0 /\ HasUnknLast THEN {"empty"} ELSE {})
        \cup (IF Len(Obs.tag) = 0 /\ HasUnknLast THEN {"emptytag"} ELSE {})
        \cup (IF ~bag3 /\ \E i \in 1..Len(Exp3) : Exp3[i] \notin ToSet(Obs3) THEN {"missing"} ELSE {})
        \cup (IF ~bag3 /\ \E i \in 1..Len(Obs3) : Obs3[i] \notin ToSet(Exp3) THEN {"extra"} ELSE {})
        \cup (IF ~bag3 /\ ToSet(Exp3) = ToSet(Obs3) THEN {"duplicate"} ELSE {})
        \cup (IF bag3 /\ ~same3 THEN {"order"} ELSE {})
        \cup (IF same3 /\ \E i \in 1..NObs : ~MatchScore(i) THEN {"score"} ELSE {})
        \cup (IF \E i \in 1..NObs : Obs.parse[i][4] < 0 \/ (Cases[ci].std /\ Obs.parse[i][4] > ONE + TOL)
              THEN {"range"} ELSE {})
        \cup (IF C.useprob /\ (\E i \in 1..NObs : ProbOf(Obs.parse[i][2]) > 0)
                 /\ \E i \in 1..(NObs - 1) : Obs.parse[i][4] < Obs.parse[i+1][4] THEN {"ranked"} ELSE {})
        \cup (IF C.useprob /\ NObs > 0 /\ (\A i \in 1..NObs : ProbOf(Obs.parse[i][2]) = 0)
                 /\ ~ (LET s == Saturated(0, 1)
                       IN  s <= ONE + 10 * NObs /\ s >= ONE - 10 * NObs) THEN {"sum"} ELSE {})
        \cup (IF CanonSet(ObsTags) # CanonSet(ParseTags) THEN {"tags"} ELSE {})
        \cup (IF CanonSet(ObsTags) # CanonSet({Exp3[i][2] : i \in 1..Len(Exp3)}) THEN {"tagspec"} ELSE {})
        \cup (IF C.useprob /\ \E i \in 1..(Len(Obs.tag) - 1) : ProbOf(Obs.tag[i]) < ProbOf(Obs.tag[i+1])
              THEN {"tagrank"} ELSE {})
        \cup (IF Obs.nfs # NormalForms(Obs.parse) THEN {"nfs"} ELSE {})
        \cup (IF \/ {Obs3[i] : i \in {k \in 1..NObs : Obs3[k][2] = "UNKN"}} # {Exp3[i] : i \in {k \in 1..Len(Exp3) : Exp3[k][2] = "UNKN"}}
                 \/ (NObs > 1 /\ Len(Exp3) = 1 /\ Exp3[1][2] = "UNKN")
                 \/ \E i \in 1..NObs : Obs3[i][2] = "UNKN" /\ (Obs3[i][1] # low \/ Obs3[i][3] # low)
              THEN {"unkn"} ELSE {})

Report ==
    ph = "done" => LET v == Clauses IN
        IF v = {} THEN PrintT("OK " \o ToString(Cases[ci].id))
        ELSE PrintT("BAD " \o ToString(Cases[ci].id) \o " " \o ToString(v) \o " exp " \o ToString(
               [i \in 1..Len(res) |-> <<res[i].w, Tags[res[i].t].s, res[i].nf, res[i].sc, res[i].prov>>]))
=============================================================================
