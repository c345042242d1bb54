-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The analyzer: dictionary semantics, analysis units, the pipeline,       *)
(* scores, lexemes and normal forms.                                       *)
(*                                                                         *)
(* Tag table (Tags): sequence of [s: string, g: seq of grammemes].*)
(* The extra tags used by non-dictionary units are part of the table; they *)
(* are found by string.                                                    *)
(* Paradigm table (Paras): sequence of paradigms, a paradigm is a *)
(* sequence of <<prefix, tag index, suffix>>.                              *)
(*                                                                         *)
(* A dictionary view D is a record                                         *)
(*   words : spelling -> sequence of <<para, form>> (form is 1-based)      *)
(*   pred  : sequence (per paradigm prefix) of ending -> seq of            *)
(*           <<count, para, form>>                                         *)
(*   prob  : word -> (tag string -> millionths)                            *)
(* A configuration C is a record                                           *)
(*   units  : sequence of [k, term, ...]    (analysis units)               *)
(*   pp     : paradigm prefixes;  maxsuf : longest prediction ending       *)
(*   subst  : character -> substitute character                            *)
(*   useprob: whether the probability estimator is on                      *)
(***************************************************************************)
EXTENDS Tagset, Context

TagG   == TLCEval([i \in 1..Len(Tags) |-> ToSet(Tags[i].g)])
Canon  == TLCEval([i \in 1..Len(Tags) |-> MinOf({j \in 1..i : Tags[j].g = Tags[i].g})])
TagStrs == TLCEval({Tags[i].s : i \in 1..Len(Tags)})
TagIx  == TLCEval([s \in TagStrs |-> CHOOSE i \in 1..Len(Tags) : Tags[i].s = s])
TagProductive == TLCEval([i \in 1..Len(Tags) |-> Productive(TagG[i])])
TagUnknown == TLCEval([i \in 1..Len(Tags) |-> UnknownPOS(Tags[i].g)])
TagFeat == TLCEval([i \in 1..Len(Tags) |-> Features(TagG[i])])
TagPaired == TLCEval([i \in 1..Len(Tags) |-> Paired(TagG[i])])

(***************************************************************************)
(* Dictionary                                                              *)
(***************************************************************************)
FormPrefix(para, i) == Paras[para][i][1]
FormTag(para, i)    == Paras[para][i][2]
FormSuffix(para, i) == Paras[para][i][3]
Stem(para, i, w)    == Slice(w, Len(FormPrefix(para, i)), Len(FormSuffix(para, i)))
Build(para, i, stem) == FormPrefix(para, i) \o stem \o FormSuffix(para, i)
NormalForm(para, i, w) == IF i = 1 THEN w ELSE Build(para, 1, Stem(para, i, w))

(* positions of key that were replaced to get x; only when x matches key *)
Matches(key, x, subst) ==
    /\ Len(x) = Len(key)
    /\ \A i \in 1..Len(key) :
          \/ Ch(x, i) = Ch(key, i)
          \/ Ch(key, i) \in DOMAIN subst /\ Ch(x, i) = subst[Ch(key, i)]
Replaced(key, x) == {i \in 1..Len(key) : Ch(x, i) # Ch(key, i)}
(* spellings are listed with fewer/earlier replacements first: the exact   *)
(* continuation precedes any replacement, and earlier replaced positions   *)
(* precede later ones                                                      *)
RECURSIVE PosBefore(_, _)
PosBefore(P, Q) ==
    IF P = {} THEN Q # {}
    ELSE IF Q = {} THEN FALSE
    ELSE LET p == MinOf(P)
             q == MinOf(Q)
         IN  IF p # q THEN p < q ELSE PosBefore(P \ {p}, Q \ {q})
Similar(domain, key, subst) ==
    LET M == {x \in domain : Matches(key, x, subst)}
        RECURSIVE Ord(_)
        Ord(S) == IF S = {} THEN <<>>
                  ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : PosBefore(Replaced(key, x), Replaced(key, y))
                       IN  <<m>> \o Ord(S \ {m})
    IN  Ord(M)

(***************************************************************************)
(* Results: [w, t, nf, sc, er, id, key, prov]                                *)
(*   prov: how the result was derived, innermost rule first                *)
(*   id  : string identifying prov;  key : identity of the innermost rule  *)
(*         for duplicate detection ("" if it has none)                     *)
(***************************************************************************)
ParaStr == TLCEval([p \in 1..Len(Paras) |-> ToString(p)])
FormStr(i) == ToString(i)

DictResult(w, para, i) ==
    [w |-> w, t |-> FormTag(para, i), nf |-> NormalForm(para, i, w), sc |-> ONE, er |-> 0,
     id |-> "D" \o w \o ":" \o ParaStr[para] \o ":" \o FormStr(i),
     key |-> "p" \o ParaStr[para],
     prov |-> <<[k |-> "dict", w |-> w, para |-> para, i |-> i]>>]

Lookup(D, key, subst) ==
    LET sp == Similar(DOMAIN D.words, key, subst)
        One(x) == [j \in 1..Len(D.words[x]) |-> DictResult(x, D.words[x][j][1], D.words[x][j][2])]
    IN  Concat(Map(sp, One))

Plain(k, low, tag, sc) ==
    [w |-> low, t |-> tag, nf |-> low, sc |-> sc, er |-> 0, id |-> k \o ":" \o low, key |-> "",
     prov |-> <<[k |-> k]>>]

SeenKey(r) == <<r.w, Canon[r.t], r.key>>

(* append those results of q whose SeenKey is new *)
RECURSIVE AddNew(_, _, _, _)
AddNew(q, i, seen, acc) ==
    IF i > Len(q) THEN [res |-> acc, seen |-> seen]
    ELSE IF SeenKey(q[i]) \in seen THEN AddNew(q, i + 1, seen, acc)
    ELSE AddNew(q, i + 1, seen \cup {SeenKey(q[i])}, Append(acc, q[i]))

Decorate(r, w, nf, num, den, dec, decid) ==
    [w |-> w, t |-> r.t, nf |-> nf, sc |-> Scale(r.sc, num, den), er |-> Scale(r.er, num, den) + 1,
     id |-> r.id \o "|" \o decid, key |-> r.key, prov |-> Append(r.prov, dec)]

(***************************************************************************)
(* Shapes of non-lexical tokens                                            *)
(* Character classes come with the case: cls[ch] is a set of names among   *)
(* "P" punctuation, "S" whitespace, "A" alphabetic, "L" Latin letter,      *)
(* "D" decimal digit                                                       *)
(***************************************************************************)
Is(cls, ch, c) == ch \in DOMAIN cls /\ Contains(cls[ch], c)

IsPunct(w, cls) ==
    /\ w # ""
    /\ \E i \in 1..Len(w) : ~Is(cls, Ch(w, i), "S")
    /\ \A i \in 1..Len(w) : Is(cls, Ch(w, i), "S") \/ Is(cls, Ch(w, i), "P")

IsLatin(w, cls) ==
    /\ \E i \in 1..Len(w) : Is(cls, Ch(w, i), "A")
    /\ \A i \in 1..Len(w) : Is(cls, Ch(w, i), "A") => Is(cls, Ch(w, i), "L")

(* Roman numerals, case-insensitive *)
RomanDigitForms(one, five, ten) ==
    {"", one, one \o one, one \o one \o one, one \o five, five, five \o one,
     five \o one \o one, five \o one \o one \o one, one \o ten}
Thousands == {"", "m", "mm", "mmm", "mmmm"}
Hundreds  == RomanDigitForms("c", "d", "m")
Tens      == RomanDigitForms("x", "l", "c")
Units     == RomanDigitForms("i", "v", "x")
RomanNumerals == TLCEval({a \o b \o c \o d : a \in Thousands, b \in Hundreds, c \in Tens, d \in Units})
RomanLetter == [c \in {"I","V","X","L","C","D","M","i","v","x","l","c","d","m","İ","ı"} |->
                  CASE c \in {"I","i","İ","ı"} -> "i" [] c \in {"V","v"} -> "v" [] c \in {"X","x"} -> "x"
                    [] c \in {"L","l"} -> "l" [] c \in {"C","c"} -> "c" [] c \in {"D","d"} -> "d"
                    [] OTHER -> "m"]
RECURSIVE RomanLower(_)
RomanLower(w) == IF w = "" THEN "" ELSE RomanLetter[Ch(w, 1)] \o RomanLower(Drop(w, 1))
IsRoman(w) ==
    /\ w # "" /\ Len(w) <= 16
    /\ \A i \in 1..Len(w) : Ch(w, i) \in DOMAIN RomanLetter
    /\ RomanLower(w) \in RomanNumerals

(* number grammar *)
TrimWs(w, cls) ==
    LET N == {i \in 1..Len(w) : ~Is(cls, Ch(w, i), "S")}
    IN  IF N = {} THEN "" ELSE Sub(w, MinOf(N), MaxOf(N))
Unsigned(w) == IF StartsWith(w, "+") \/ StartsWith(w, "-") THEN Drop(w, 1) ELSE w
(* digits, with single underscores allowed between digits *)
Digits(w, cls) ==
    /\ w # ""
    /\ Is(cls, Ch(w, 1), "D") /\ Is(cls, Ch(w, Len(w)), "D")
    /\ \A i \in 1..Len(w) :
          \/ Is(cls, Ch(w, i), "D")
          \/ Ch(w, i) = "_" /\ i > 1 /\ i < Len(w) /\ Is(cls, Ch(w, i-1), "D") /\ Is(cls, Ch(w, i+1), "D")
(* a sign may be followed by spaces in an integer (the runtime's int()) but *)
(* not in a decimal number                                                 *)
IsInt(w, cls)  ==
    LET t == TrimWs(w, cls)
    IN  Digits(IF Unsigned(t) # t THEN TrimWs(Unsigned(t), cls) ELSE t, cls)
Mantissa(m, cls) ==
    \/ Digits(m, cls)
    \/ \E i \in Positions(m, ".") :
          LET a == Take(m, i - 1)
              b == Drop(m, i)
          IN  /\ a # "" \/ b # ""
              /\ a = "" \/ Digits(a, cls)
              /\ b = "" \/ Digits(b, cls)
IsReal(w, cls) ==
    LET u == ReplaceCh(Unsigned(TrimWs(w, cls)), ",", ".")
    IN  \/ Mantissa(u, cls)
        \/ \E i \in Positions(u, "e") \cup Positions(u, "E") :
              Mantissa(Take(u, i - 1), cls) /\ Digits(Unsigned(Drop(u, i)), cls)

(***************************************************************************)
(* Initials                                                                *)
(***************************************************************************)
InitialGenders == <<"masc", "femn">>
InitialCases   == <<"nomn", "gent", "datv", "accs", "ablt", "loct">>
InitialTagStr(kind, g, c) == "NOUN,anim," \o g \o ",Sgtm," \o kind \o ",Fixd,Abbr,Init sing," \o c
InitialTags(kind) ==
    [n \in 1..12 |-> InitialTagStr(kind, InitialGenders[IF n > 6 THEN 2 ELSE 1], InitialCases[IF n > 6 THEN n - 6 ELSE n])]

(***************************************************************************)
(* Units.  Each returns [res, seen].                                       *)
(***************************************************************************)
Same(res, seen) == [res |-> res, seen |-> seen]
ShapeUnit(u, hit, low, tag, seen) ==
    Same(IF hit THEN <<Plain("shape" \o tag, low, TagIx[tag], u.score)>> ELSE <<>>, seen)
InitialUnit(u, w, low, kind, seen) ==
    Same(IF w # "" /\ w \in u.letters
         THEN [n \in 1..12 |->
                 [Plain("init" \o kind, low, TagIx[InitialTags(kind)[n]], u.score)
                    EXCEPT !.prov = <<[k |-> "init", kind |-> kind]>>]]
         ELSE <<>>, seen)

OneHyphenInside(low) ==
    CountCh(low, "-") = 1 /\ ~StartsWith(low, "-") /\ ~EndsWith(low, "-")

ParticleSplit(u, low) ==
    LET ok == {i \in 1..Len(u.particles) :
                  EndsWith(low, u.particles[i]) /\ Len(low) > Len(u.particles[i])}
    IN  IF ~Contains(low, "-") \/ ok = {} THEN "" ELSE u.particles[MinOf(ok)]

RECURSIVE Parse(_, _, _, _, _), RunUnits(_, _, _, _, _, _, _, _), UnitParse(_, _, _, _, _, _, _)

(* the probability estimator; er bounds the error of the fixed-point score:   *)
(* s/T with |ds| <= e, |dT| <= E is off by at most (e + s/T * E) / T          *)
ErrCap == 100000               \* from here on the score is not compared
Share(x, E) == ((x \div 1000 + 1) * Min2(E, ErrCap)) \div 10000 + 1
ErrOf(e, tot) == IF e >= tot THEN ErrCap ELSE Min2(ErrCap, Ratio(e, tot) + 1)
ApplyProb(C, D, low, res) ==
    IF Len(res) = 0 \/ ~C.useprob THEN res
    ELSE LET P(r) == IF low \in DOMAIN D.prob /\ Tags[r.t].s \in DOMAIN D.prob[low]
                     THEN D.prob[low][Tags[r.t].s] ELSE 0
         IN  IF \A i \in 1..Len(res) : P(res[i]) = 0
             THEN LET tot == SumSeq([i \in 1..Len(res) |-> res[i].sc])
                      E   == SumSeq([i \in 1..Len(res) |-> res[i].er])
                  IN  [i \in 1..Len(res) |->
                         \* all estimates zero (the rest of a word has P(t|w) for tags that do not
                         \* come through): equal shares
                         LET x == IF tot = 0 THEN Ratio(1, Len(res)) ELSE Ratio(res[i].sc, tot)
                         IN  [res[i] EXCEPT !.sc = x,
                                !.er = IF tot = 0 THEN (IF E = 0 THEN 1 ELSE ErrCap)
                                       ELSE ErrOf(res[i].er + Share(x, E), tot)]]
             ELSE LET S(r) == [r EXCEPT !.sc = P(r) * (ONE \div 1000000), !.er = 0]
                      G(a, b) == a.sc > b.sc
                  IN  StableSort(Map(res, S), G)

RunUnits(C, D, cls, w, low, ui, seen, acc) ==
    IF ui > Len(C.units) THEN acc
    ELSE LET x == UnitParse(C, D, cls, C.units[ui], w, low, seen)
             a == acc \o x.res
         IN  IF C.units[ui].term /\ Len(a) > 0 THEN a
             ELSE RunUnits(C, D, cls, w, low, ui + 1, x.seen, a)

Parse(C, D, cls, w, low) == ApplyProb(C, D, low, RunUnits(C, D, cls, w, low, 1, {}, <<>>))

(* nested analysis of an already lower-cased part of the token *)
Nested(C, D, cls, part) == Parse(C, D, cls, part, part)

KnownPrefixUnit(C, D, cls, u, low, seen) ==
    LET lens == {n \in 1..Min2(u.maxlen, Len(low) - u.minrem) : Take(low, n) \in u.prefixes}
        RECURSIVE Desc(_)
        Desc(S) == IF S = {} THEN <<>> ELSE <<MaxOf(S)>> \o Desc(S \ {MaxOf(S)})
        One(n) == LET p  == Take(low, n)
                      q  == Nested(C, D, cls, Drop(low, n))
                      ok(r) == TagProductive[r.t]
                      F(r) == Decorate(r, p \o r.w, p \o r.nf, u.num, u.den, [k |-> "pref", p |-> p], "K" \o p)
                  IN  Map(SelectSeq(q, ok), F)
    IN  AddNew(Concat(Map(Desc(lens), One)), 1, seen, <<>>)

UnknownPrefixUnit(C, D, u, low, seen) ==
    LET N == Min2(5, Len(low) - 3)
        One(n) == LET p  == Take(low, n)
                      q  == Lookup(D, Drop(low, n), C.subst)
                      ok(r) == TagProductive[r.t]
                      F(r) == Decorate(r, p \o r.w, p \o r.nf, u.num, u.den, [k |-> "pref", p |-> p], "U" \o p)
                  IN  Map(SelectSeq(q, ok), F)
    IN  AddNew(Concat([n \in 1..(IF N < 0 THEN 0 ELSE N) |-> One(n)]), 1, seen, <<>>)

(* all evidence for one ending under one paradigm prefix, in table order *)
Evidence(C, D, pid, low, n) ==
    LET start == DropR(low, n)
        tbl   == D.pred[pid]
        sp    == Similar(DOMAIN tbl, TakeR(low, n), C.subst)
        One(x) == [j \in 1..Len(tbl[x]) |->
                     [cnt |-> tbl[x][j][1], para |-> tbl[x][j][2], i |-> tbl[x][j][3], w |-> start \o x, suf |-> x]]
        ok(e) == TagProductive[FormTag(e.para, e.i)]
    IN  SelectSeq(Concat(Map(sp, One)), ok)

(* the longest ending with evidence *)
RECURSIVE BestEvidence(_, _, _, _, _)
BestEvidence(C, D, pid, low, n) ==
    IF n = 0 THEN <<>>
    ELSE LET e == Evidence(C, D, pid, low, n)
         IN  IF Len(e) > 0 THEN e ELSE BestEvidence(C, D, pid, low, n - 1)

KnownSuffixUnit(C, D, u, w, low, seen) ==
    IF Len(w) < u.minlen THEN Same(<<>>, seen)
    ELSE
    LET RECURSIVE Go(_, _, _)
        (* paradigm prefixes are tried from the last one to the first *)
        Go(pid, sn, acc) ==
            IF pid = 0 THEN [raw |-> acc, seen |-> sn]
            ELSE IF ~StartsWith(low, C.pp[pid]) THEN Go(pid - 1, sn, acc)
            ELSE LET ev  == BestEvidence(C, D, pid, low, C.maxsuf)
                     tot == 1 + SumSeq([j \in 1..Len(ev) |-> ev[j].cnt])
                     raw == [j \in 1..Len(ev) |->
                              LET d == DictResult(ev[j].w, ev[j].para, ev[j].i)
                              IN  [r |-> [d EXCEPT !.sc = Scale(Ratio(ev[j].cnt, tot), u.num, u.den), !.er = 2,
                                                   !.prov = Append(d.prov, [k |-> "suf"]),
                                                   !.id = d.id \o "|S" \o ev[j].suf],
                                   cnt |-> ev[j].cnt, tot |-> tot]]
                     RECURSIVE Add(_, _, _)
                     Add(j, s2, a2) ==
                         IF j > Len(raw) THEN [raw |-> a2, seen |-> s2]
                         ELSE LET kk == SeenKey(raw[j].r)
                              IN  IF kk \in s2 THEN Add(j + 1, s2, a2)
                                  ELSE Add(j + 1, s2 \cup {kk}, Append(a2, raw[j]))
                     nx  == Add(1, sn, acc)
                 IN  Go(pid - 1, nx.seen, nx.raw)
        all == Go(Len(C.pp), seen, <<>>)
        G(a, b) == FracGT(a.cnt, a.tot, b.cnt, b.tot)
        R(x) == x.r
    IN  [res |-> Map(StableSort(all.raw, G), R), seen |-> all.seen]

ParticleUnit(C, D, cls, u, low, seen) ==
    LET p == ParticleSplit(u, low)
    IN  IF p = "" THEN Same(<<>>, seen)
        ELSE LET q == Nested(C, D, cls, DropR(low, Len(p)))
                 F(r) == Decorate(r, r.w \o p, r.nf \o p, u.num, u.den, [k |-> "part", p |-> p], "P" \o p)
             IN  AddNew(Map(q, F), 1, seen, <<>>)

AdverbUnit(C, D, cls, u, low, seen) ==
    IF Len(low) >= 5 /\ StartsWith(low, "по-")
       /\ LET q == Nested(C, D, cls, Drop(low, 3))
          IN  \E j \in 1..Len(q) : {"ADJF", "sing", "datv"} \subseteq TagG[q[j].t]
    THEN [res |-> <<Plain("adv", low, TagIx["ADVB"], u.score)>>,
          seen |-> seen \cup {<<low, Canon[TagIx["ADVB"]], "adv">>}]
    ELSE Same(<<>>, seen)

CompoundUnit(C, D, cls, u, low, seen) ==
    IF ~OneHyphenInside(low) \/ \E n \in 1..Min2(u.maxlen, Len(low)) : Take(low, n) \in u.prefixes
    THEN Same(<<>>, seen)
    ELSE
    LET h  == FirstPos(low, "-")
        lw == Take(low, h - 1)
        ls == Nested(C, D, cls, lw)
        rs == Nested(C, D, cls, Drop(low, h))
        Pair(l, r) == [w |-> l.w \o "-" \o r.w, t |-> l.t, nf |-> l.nf \o "-" \o r.nf,
                       sc |-> Scale(l.sc, u.num, u.den), er |-> Scale(l.er, u.num, u.den) + 1,
                       id |-> "H(" \o l.id \o "^" \o r.id \o ")", key |-> "H" \o r.id,
                       prov |-> <<[k |-> "both", lp |-> l.prov, rp |-> r.prov]>>]
        PairsOf(l) == LET same(r) == ~TagUnknown[l.t] /\ TagFeat[l.t] = TagFeat[r.t]
                          F(r) == Pair(l, r)
                      IN  Map(SelectSeq(rs, same), F)
        Fixed(r) == [w |-> lw \o "-" \o r.w, t |-> r.t, nf |-> lw \o "-" \o r.nf,
                     sc |-> Scale(r.sc, u.num, u.den), er |-> Scale(r.er, u.num, u.den) + 1,
                     id |-> "H(" \o lw \o "~" \o r.id \o ")", key |-> "H" \o r.id,
                     prov |-> <<[k |-> "fixed", l |-> lw, rp |-> r.prov]>>]
        known(r) == ~TagUnknown[r.t]
        all == Concat(Map(ls, PairsOf)) \o Map(SelectSeq(rs, known), Fixed)
    IN  [res |-> all, seen |-> IF all = <<>> THEN seen ELSE seen \cup {<<low, 0, "comp">>}]

UnitParse(C, D, cls, u, w, low, seen) ==
    CASE u.k = "dict"   -> Same(Lookup(D, low, C.subst), seen)
      [] u.k = "fname"  -> InitialUnit(u, w, low, "Name", seen)
      [] u.k = "patr"   -> InitialUnit(u, w, low, "Patr", seen)
      [] u.k = "number" -> IF IsInt(w, cls) THEN ShapeUnit(u, TRUE, low, "NUMB,intg", seen)
                           ELSE ShapeUnit(u, IsReal(w, cls), low, "NUMB,real", seen)
      [] u.k = "punct"  -> ShapeUnit(u, IsPunct(w, cls), low, "PNCT", seen)
      [] u.k = "roman"  -> ShapeUnit(u, IsRoman(w), low, "ROMN", seen)
      [] u.k = "latin"  -> ShapeUnit(u, IsLatin(w, cls), low, "LATN", seen)
      [] u.k = "part"   -> ParticleUnit(C, D, cls, u, low, seen)
      [] u.k = "adverb" -> AdverbUnit(C, D, cls, u, low, seen)
      [] u.k = "comp"   -> CompoundUnit(C, D, cls, u, low, seen)
      [] u.k = "kpref"  -> KnownPrefixUnit(C, D, cls, u, low, seen)
      [] u.k = "upref"  -> UnknownPrefixUnit(C, D, u, low, seen)
      [] u.k = "suf"    -> KnownSuffixUnit(C, D, u, w, low, seen)
      [] u.k = "unkn"   -> IF seen # {} THEN Same(<<>>, seen)
                           ELSE Same(<<Plain("unkn", low, TagIx["UNKN"], ONE)>>, seen)

(***************************************************************************)
(* Lexemes and normal forms.  A form is [w, t, nf, prov].                  *)
(***************************************************************************)
Form(r) == [w |-> r.w, t |-> r.t, nf |-> r.nf, prov |-> r.prov]
FrontOf(q) == SubSeq(q, 1, Len(q) - 1)
LastOf(q)  == q[Len(q)]

RECURSIVE Lexeme(_), Normalized(_)
Closest(r, ls) ==
    LET dist(j) == Cardinality(SymDiff(TagPaired[ls[j].t], TagPaired[r.t]))
        best    == MinOf({dist(j) : j \in 1..Len(ls)})
    IN  ls[MinOf({j \in 1..Len(ls) : dist(j) = best})]
Lexeme(f) ==
    LET m == LastOf(f.prov)
    IN  CASE m.k = "dict" ->
              LET st == Stem(m.para, m.i, f.w)
              IN  [n \in 1..Len(Paras[m.para]) |->
                     LET w == Build(m.para, n, st)
                     IN  [w |-> w, t |-> FormTag(m.para, n), nf |-> f.nf,
                          prov |-> <<[k |-> "dict", w |-> w, para |-> m.para, i |-> n]>>]]
          [] m.k = "suf" ->
              LET F(g) == [g EXCEPT !.prov = Append(g.prov, m)]
              IN  Map(Lexeme([f EXCEPT !.prov = FrontOf(f.prov)]), F)
          [] m.k = "pref" ->
              LET n == Len(m.p)
                  F(g) == [w |-> m.p \o g.w, t |-> g.t, nf |-> m.p \o g.nf, prov |-> Append(g.prov, m)]
              IN  Map(Lexeme([f EXCEPT !.prov = FrontOf(f.prov), !.w = Drop(f.w, n), !.nf = Drop(f.nf, n)]), F)
          [] m.k = "part" ->
              LET n == Len(m.p)
                  F(g) == [w |-> g.w \o m.p, t |-> g.t, nf |-> g.nf \o m.p, prov |-> Append(g.prov, m)]
              IN  Map(Lexeme([f EXCEPT !.prov = FrontOf(f.prov), !.w = DropR(f.w, n), !.nf = DropR(f.nf, n)]), F)
          [] m.k = "fixed" ->
              LET n == Len(m.l) + 1
                  F(g) == [w |-> m.l \o "-" \o g.w, t |-> g.t, nf |-> m.l \o "-" \o g.nf,
                           prov |-> <<[k |-> "fixed", l |-> m.l, rp |-> g.prov]>>]
              IN  Map(Lexeme([w |-> Drop(f.w, n), t |-> f.t, nf |-> Drop(f.nf, n), prov |-> m.rp]), F)
          [] m.k = "both" ->
              LET hw == FirstPos(f.w, "-")
                  hn == FirstPos(f.nf, "-")
                  ls == Lexeme([w |-> Take(f.w, hw - 1), t |-> f.t, nf |-> Take(f.nf, hn - 1), prov |-> m.lp])
                  rs == Lexeme([w |-> Drop(f.w, hw), t |-> f.t, nf |-> Drop(f.nf, hn), prov |-> m.rp])
                  F(r) == LET l == Closest(r, ls)
                          IN  [w |-> l.w \o "-" \o r.w, t |-> l.t, nf |-> l.nf \o "-" \o r.nf,
                               prov |-> <<[k |-> "both", lp |-> l.prov, rp |-> r.prov]>>]
              IN  Map(rs, F)
          [] m.k = "init" ->
              LET tags == InitialTags(m.kind)
                  fem  == "femn" \in TagG[f.t]
                  lo   == IF m.kind = "Patr" THEN 1 ELSE IF fem THEN 7 ELSE 1
                  hi   == IF m.kind = "Patr" THEN 12 ELSE IF fem THEN 12 ELSE 6
              IN  [n \in 1..(hi - lo + 1) |-> [f EXCEPT !.t = TagIx[tags[lo + n - 1]]]]
          [] OTHER -> <<f>>

(* the normal form as a form *)
Normalized(f) ==
    LET m == LastOf(f.prov)
    IN  CASE m.k = "dict" ->
              IF m.i = 1 THEN f
              ELSE [w |-> f.nf, t |-> FormTag(m.para, 1), nf |-> f.nf,
                    prov |-> <<[k |-> "dict", w |-> f.nf, para |-> m.para, i |-> 1]>>]
          [] m.k = "suf" ->
              LET g == Normalized([f EXCEPT !.prov = FrontOf(f.prov)]) IN [g EXCEPT !.prov = Append(g.prov, m)]
          [] m.k = "pref" ->
              LET n == Len(m.p)
                  g == Normalized([f EXCEPT !.prov = FrontOf(f.prov), !.w = Drop(f.w, n), !.nf = Drop(f.nf, n)])
              IN  [w |-> m.p \o g.w, t |-> g.t, nf |-> m.p \o g.nf, prov |-> Append(g.prov, m)]
          [] m.k = "part" ->
              LET n == Len(m.p)
                  g == Normalized([f EXCEPT !.prov = FrontOf(f.prov), !.w = DropR(f.w, n), !.nf = DropR(f.nf, n)])
              IN  [w |-> g.w \o m.p, t |-> g.t, nf |-> g.nf \o m.p, prov |-> Append(g.prov, m)]
          [] m.k \in {"fixed", "both"} -> Lexeme(f)[1]
          [] m.k = "init" -> Lexeme(f)[1]
          [] OTHER -> f
=============================================================================
