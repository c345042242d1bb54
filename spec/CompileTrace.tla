---------------------------- MODULE CompileTrace ----------------------------
(* Conversions of the real compiler, checked against Compile.tla.           *)
(* A case has src (the source lexicon) and obs:                             *)
(*   exc     : "" or the exception                                          *)
(*   entries : sequence of [w, t, nf, lex] - every entry of the loaded      *)
(*             dictionary, with its lexeme as a sequence of <<word, tag>>   *)
(*   pred    : sequence (per prefix) of sequences of                        *)
(*             <<ending, count, para, form>>   (only when K.haspred)        *)
EXTENDS CaseList, Compile

VARIABLES ci, ph, lex, moves, k
vars == <<ci, ph, lex, moves, k>>
K == Cases[ci]
S == K.src
Obs == K.obs
ObsTags == {Obs.entries[i].t : i \in 1..Len(Obs.entries)}
                \cup UNION {{Obs.entries[i].lex[j][2] : j \in 1..Len(Obs.entries[i].lex)} : i \in 1..Len(Obs.entries)}

Init == ci \in 1..Len(Cases) /\ ph = "parse" /\ lex = <<>> /\ moves = <<>> /\ k = 1
ParseStep == ph = "parse" /\ lex' = Parsed(S) /\ ph' = "tags" /\ UNCHANGED <<ci, moves, k>>
TagStep   == ph = "tags" /\ lex' = Simplified(lex, ObsTags) /\ ph' = "drop" /\ UNCHANGED <<ci, moves, k>>
DropStep  == ph = "drop" /\ lex' = DropInit(lex) /\ ph' = "links" /\ UNCHANGED <<ci, moves, k>>
LinkStep ==
    /\ ph = "links" /\ k <= Len(S.links)
    /\ k' = k + 1 /\ UNCHANGED <<ci, ph>>
    /\ LET l == S.links[k]
       IN  IF l[3] \in IGNORED_LINKS \/ Redundant(moves, l[1], l[2]) THEN UNCHANGED <<lex, moves>>
           ELSE lex' = Moved(lex, moves, l[1], l[2]) /\ moves' = MovesAfter(moves, l[1], l[2])
Finish == ph = "links" /\ k > Len(S.links) /\ ph' = "done" /\ UNCHANGED <<ci, lex, moves, k>>
Next == ParseStep \/ TagStep \/ DropStep \/ LinkStep \/ Finish
Spec == Init /\ [][Next]_vars

(* design invariants ------------------------------------------------------*)
SumLen(f) == SumSeq(
                    [i \in 1..Len(S.lexs) |-> Len(f[S.lexs[i].id])])
NotInit(q) == SelectSeq(q, LAMBDA f : "Init" \notin Grammemes(f[2]))
(* no form is lost or duplicated, whatever the links *)
Conservation ==
    ph \in {"links", "done"} =>
        SumLen(lex) = SumLen([id \in Ids(S) |-> NotInit(Parsed(S)[id])])
(* an emptied lexeme's forms are in the lexeme it was moved to *)
Nested ==
    ph \in {"links", "done"} =>
        \A id \in DOMAIN moves :
            /\ lex[id] = <<>>
            /\ Root(moves, id) \notin DOMAIN moves
            /\ LET own == [n \in 1..Len(ParseLexeme(LexAt(S, id))) |-> ParseLexeme(LexAt(S, id))[n][1]]
               IN  \A n \in 1..Len(NotInit(ParseLexeme(LexAt(S, id)))) :
                      \E m \in 1..Len(lex[Root(moves, id)]) :
                          lex[Root(moves, id)][m][1] = NotInit(ParseLexeme(LexAt(S, id)))[n][1]
(* a root's own forms come first *)
RootFirst ==
    ph \in {"links", "done"} =>
        \A id \in Ids(S) \ DOMAIN moves :
            LET own == NotInit(ParseLexeme(LexAt(S, id)))
            IN  /\ Len(own) <= Len(lex[id])
                /\ \A n \in 1..Len(own) : lex[id][n][1] = own[n][1]
(* unified tags: no redundant case, no two reorderings with the same space *)
WellSpelled(T) ==
    LET G == TLCEval([t \in T |-> Grammemes(t)])
        P == TLCEval([t \in T |-> SpaceAt(t)])
    IN  \A t, u \in T : t # u /\ P[t] = P[u] => G[t] # G[u]
Unified ==
    ph \in {"drop", "links", "done"} =>
        LET T == TLCEval(UNION {{lex[id][i][2] : i \in 1..Len(lex[id])} : id \in DOMAIN lex})
        IN  /\ \A t \in T : Grammemes(t) \cap DOMAIN REDUNDANT = {}
            /\ WellSpelled(T)

(* verdict ----------------------------------------------------------------*)
Lexemes == SelectSeq([i \in 1..Len(S.lexs) |-> lex[S.lexs[i].id]], LAMBDA q : q # <<>>)
Distinct == {Lexemes[i] : i \in 1..Len(Lexemes)}
Expected == UNION {{<<q, i>> : i \in 1..Len(q)} : q \in Distinct}
ExpEntry(e) == [w |-> e[1][e[2]][1], t |-> e[1][e[2]][2], nf |-> e[1][1][1], lex |-> e[1]]
ObsSet == {Obs.entries[i] : i \in 1..Len(Obs.entries)}
ExpSet == {ExpEntry(e) : e \in Expected}
CountExp(x) == Cardinality({i \in 1..Len(x.lex) : x.lex[i] = <<x.w, x.t>>})
CountObs(x) == Cardinality({i \in 1..Len(Obs.entries) : Obs.entries[i] = x})
WG(x) == <<x.w, Grammemes(x.t)>>
WT(x) == <<x.w, x.t>>
TableClauses ==
    LET lx == TLCEval(Lexemes)
        ps == TLCEval([i \in 1..Len(lx) |-> ParadigmOf(lx[i], ToSet(S.opt.pp))])
    IN  (IF Len(Obs.pred) # Len(S.opt.pp) THEN {"predtables"}
         ELSE UNION {LET exp == PredictionTable(ps, S.opt, S.opt.pp[n])
                         obs == ToSet(Obs.pred[n])
                     IN  (IF exp \ obs # {} THEN {"predmissing"} ELSE {})
                         \cup (IF obs \ exp # {} THEN {"predextra"} ELSE {})
                         \cup (IF Len(Obs.pred[n]) # Cardinality(obs) THEN {"preddup"} ELSE {})
                     : n \in 1..Len(S.opt.pp)})
SameCounts(os) ==
    \A x \in os : CountObs(x) = CountExp(x)
Verdict ==
    IF Obs.exc # "" THEN {"raised"}
    ELSE LET es == TLCEval(ExpSet)          os == TLCEval(ObsSet)
             eg == TLCEval({WG(x) : x \in es})   og == TLCEval({WG(x) : x \in os})
             et == TLCEval({WT(x) : x \in es})   ot == TLCEval({WT(x) : x \in os})
             tg == TLCEval(ObsTags)
         IN  (IF eg \ og # {} THEN {"lost"} ELSE {})
             \cup (IF og \ eg # {} THEN {"invented"} ELSE {})
             \cup (IF et # ot /\ eg = og THEN {"spelling"} ELSE {})
             \cup (IF \E t \in tg : Grammemes(t) \cap DOMAIN REDUNDANT # {} THEN {"redundant"} ELSE {})
             \cup (IF ~WellSpelled(tg) THEN {"reordered"} ELSE {})
             \cup (IF es # os /\ et = ot THEN {"lexeme"} ELSE {})
             \cup (IF ~SameCounts(os \cap es) THEN {"count"} ELSE {})
             \cup (IF K.haspred THEN TableClauses ELSE {})
Report == ph = "done" =>
    LET v == Verdict IN
    IF v = {} THEN PrintT("OK " \o ToString(K.id))
    ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(v) \o " missing " \o
                ToString(IF Obs.exc # "" THEN {} ELSE {WT(x) : x \in ExpSet \ ObsSet}) \o " extra " \o
                ToString(IF Obs.exc # "" THEN {} ELSE {WT(x) : x \in ObsSet \ ExpSet}))
=============================================================================
