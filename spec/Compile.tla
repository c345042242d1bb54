------------------------------ MODULE Compile ------------------------------
(***************************************************************************)
(* The dictionary compiler: OpenCorpora lexicon -> compiled dictionary.    *)
(*                                                                         *)
(* A source S is a record                                                  *)
(*   lexs  : sequence of [id, base, forms]; base: sequence of grammemes,   *)
(*           forms: sequence of [w, g] (w lower-cased, g: grammemes);      *)
(*           a deleted lexeme has no forms                                 *)
(*   links : sequence of <<from, to, type>> (ids; types are strings)       *)
(*   opt   : [pp, maxsuf, minpop, minend]                                  *)
(*                                                                         *)
(* The compiler is a state machine: parse, unify tags, drop initials, then *)
(* one step per link, then the tables are computed.                        *)
(***************************************************************************)
EXTENDS Tagset

REDUNDANT == [loc1 |-> "loct", gen1 |-> "gent", acc1 |-> "accs"]
IGNORED_LINKS == {"7", "21", "23", "27"}

(* parsing ----------------------------------------------------------------*)
RawTag(base, g) ==
    LET a == Join(base, ",")
        b == Join(g, ",")
    IN  IF a = "" THEN b ELSE IF b = "" THEN a ELSE a \o " " \o b
NoInfo(lx) == \E i \in 1..Len(lx.forms) : lx.base = <<>> /\ lx.forms[i].g = <<>>
ParseLexeme(lx) ==
    IF NoInfo(lx) THEN <<>>
    ELSE [i \in 1..Len(lx.forms) |-> <<lx.forms[i].w, RawTag(lx.base, lx.forms[i].g)>>]
Ids(S) == {S.lexs[i].id : i \in 1..Len(S.lexs)}
LexAt(S, id) == S.lexs[CHOOSE i \in 1..Len(S.lexs) : S.lexs[i].id = id]
Parsed(S) == [id \in Ids(S) |-> ParseLexeme(LexAt(S, id))]

(* tag spellings ----------------------------------------------------------*)
(* redundant cases are replaced grammeme by grammeme; a tag keeps the place *)
(* of its space                                                            *)
SubstG(q, m) == [i \in 1..Len(q) |-> IF q[i] \in DOMAIN m THEN m[q[i]] ELSE q[i]]
NoRedundant(t) ==
    LET p == FirstPos(t, " ")
        Half(x) == Join(SubstG(Split(x, ","), REDUNDANT), ",")
    IN  IF p = 0 THEN Half(t) ELSE Half(Take(t, p - 1)) \o " " \o Half(Drop(t, p))

(* number of occurrences of each spelling in the lexicon *)
TagSet(lex) == UNION {{NoRedundant(lex[id][i][2]) : i \in 1..Len(lex[id])} : id \in DOMAIN lex}
Occurs(lex, t) == Cardinality(UNION {{<<id, i>> : i \in {n \in 1..Len(lex[id]) : NoRedundant(lex[id][n][2]) = t}} : id \in DOMAIN lex})
SpaceAt(t) == FirstPos(t, " ")
Ambiguous(G) == \E t, u \in G : t # u /\ SpaceAt(t) = SpaceAt(u)
MostFrequent(n, G) == {t \in G : \A u \in G : n[t] >= n[u]}
(* the replacement of every spelling; among equally frequent spellings the  *)
(* compiler may pick any: `seen' tells which one it did pick                *)
Spelling(lex, seen) ==
    LET T == TLCEval(TagSet(lex))
        n == TLCEval([t \in T |-> Occurs(lex, t)])
        gr == TLCEval([t \in T |-> Grammemes(t)])
    IN  TLCEval([t \in T |->
            LET G == {u \in T : gr[u] = gr[t]}
                B == MostFrequent(n, G)
            IN  IF ~Ambiguous(G) THEN t
                ELSE IF B \cap seen # {} THEN CHOOSE x \in B \cap seen : TRUE
                ELSE CHOOSE x \in B : TRUE])
Simplified(lex, seen) ==
    LET sp == Spelling(lex, seen)
    IN  [id \in DOMAIN lex |-> [i \in 1..Len(lex[id]) |-> <<lex[id][i][1], sp[NoRedundant(lex[id][i][2])]>>]]

(* initials are handled by analyzer units ---------------------------------*)
DropInit(lex) == [id \in DOMAIN lex |-> SelectSeq(lex[id], LAMBDA f : "Init" \notin Grammemes(f[2]))]

(* links ------------------------------------------------------------------*)
RECURSIVE Root(_, _)
Root(moves, id) == IF id \in DOMAIN moves THEN Root(moves, moves[id]) ELSE id
(* one link: the end of the link joins the lexeme its start is a part of    *)
Redundant(moves, from, to) == to \in DOMAIN moves \/ Root(moves, from) = to
Moved(lex, moves, from, to) ==
    LET r == Root(moves, from) IN [lex EXCEPT ![r] = lex[r] \o lex[to], ![to] = <<>>]
MovesAfter(moves, from, to) == (to :> Root(moves, from)) @@ moves

(* paradigms --------------------------------------------------------------*)
CommonSub(forms) ==
    IF Len(forms) = 1 THEN forms[1]
    ELSE LET f == forms[1]
             C == {<<i, j>> \in (1..Len(f)) \X (1..Len(f)) : i <= j /\ \A k \in 1..Len(forms) : SubstrPos(forms[k], Sub(f, i, j)) > 0}
             B == {c \in C : \A d \in C : d[2] - d[1] < c[2] - c[1] \/ (d[2] - d[1] = c[2] - c[1] /\ d[1] >= c[1])}
         IN  IF C = {} THEN "" ELSE LET c == CHOOSE x \in B : TRUE IN Sub(f, c[1], c[2])
(* [stem, para]: para is a sequence of <<prefix, tag, suffix>> *)
ParadigmOf(lexeme, pp) ==
    LET forms == [i \in 1..Len(lexeme) |-> lexeme[i][1]]
        stem  == CommonSub(forms)
        pref  == [i \in 1..Len(forms) |-> IF Len(forms) = 1 THEN "" ELSE Take(forms[i], SubstrPos(forms[i], stem) - 1)]
        ok    == \A i \in 1..Len(forms) : pref[i] \in pp
    IN  IF ok THEN [stem |-> stem, para |-> [i \in 1..Len(forms) |-> <<pref[i], lexeme[i][2], Drop(forms[i], Len(pref[i]) + Len(stem))>>]]
        ELSE [stem |-> "", para |-> [i \in 1..Len(forms) |-> <<"", lexeme[i][2], forms[i]>>]]

(* prediction tables ------------------------------------------------------*)
(* ps: sequence of [stem, para] of all lexemes                             *)
(* an occurrence is <<lexeme, form, ending>> *)
Occurrences(ps, opt) ==
    LET n == TLCEval([i \in 1..Len(ps) |-> Cardinality({j \in 1..Len(ps) : ps[j].para = ps[i].para})])
        Ends(i, f) ==
            LET e == ps[i].para[f]
                w == e[1] \o ps[i].stem \o e[3]
            IN  IF ps[i].stem = "" THEN {}
                ELSE {<<i, f, TakeR(w, k)>> : k \in Max2(Len(e[3]), 1)..Min2(opt.maxsuf, Len(w))}
    IN  UNION {UNION {Ends(i, f) : f \in 1..Len(ps[i].para)} : i \in {j \in 1..Len(ps) : n[j] >= opt.minpop}}
POSof(t) == TagSeq(t)[1]
(* table of one form prefix: set of <<ending, count, para, form>> *)
PredictionTable(ps, opt, prefix) ==
    LET O == TLCEval(Occurrences(ps, opt))
        E == {o[3] : o \in O}
        byEnd == TLCEval([e \in E |-> {o \in O : o[3] = e}])
        frequent == {e \in E : Cardinality(byEnd[e]) >= opt.minend}
        Rows(e) ==
            LET H == {o \in byEnd[e] : ps[o[1]].para[o[2]][1] = prefix}
                A == {<<ps[o[1]].para, o[2]>> : o \in H}
                cnt == TLCEval([a \in A |-> Cardinality({o \in H : ps[o[1]].para = a[1] /\ o[2] = a[2]})])
                pos == TLCEval([a \in A |-> POSof(a[1][a[2]][2])])
            IN  {<<e, cnt[a], a[1], a[2]>> : a \in {x \in A : \A y \in A : pos[y] = pos[x] => cnt[y] <= cnt[x]}}
    IN  UNION {Rows(e) : e \in frequent}
=============================================================================
