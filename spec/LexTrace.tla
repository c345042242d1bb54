------------------------------ MODULE LexTrace ------------------------------
(***************************************************************************)
(* Lexemes, normal forms, inflection and numeral agreement: for every      *)
(* recorded word, one step per parse returned by the implementation.       *)
(* The expected parses come from the pipeline of Core.tla, the expected    *)
(* lexemes from Lexeme/Normalized, inflection from Tagset.tla.             *)
(***************************************************************************)
EXTENDS Setup

(* grammeme table of the dictionary plus what the units register *)
GT == TLCEval(Ctx.grammemes)
GTNames == TLCEval(Names(GT))
KnownG == TLCEval(GTNames \cup ToSet(Ctx.extra_grammemes))
IncF == TLCEval([g \in GTNames |-> Incompatible(GT, g)])
Inc(g) == IF g \in GTNames THEN IncF[g] ELSE {}

VARIABLES ci, pi, exp, bad
vars == <<ci, pi, exp, bad>>

K == Cases[ci]
Obs == K.obs
C == Configs[K.cfg]
D == IF K.di > 0 THEN Dicts[K.di] ELSE K.d
NItems == Len(Obs.items)

Init == /\ ci \in 1..Len(Cases) /\ pi = 0 /\ bad = {}
        /\ exp = Parse(Configs[Cases[ci].cfg],
                       IF Cases[ci].di > 0 THEN Dicts[Cases[ci].di] ELSE Cases[ci].d,
                       Cases[ci].cls, Cases[ci].w, Cases[ci].low)

F3(f) == <<f.w, Tags[f.t].s, f.nf>>
Seq3(q) == [i \in 1..Len(q) |-> F3(q[i])]
ObsP(i) == <<Obs.parse[i][1], Obs.parse[i][2], Obs.parse[i][3]>>
ObsSeq(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2], q[i][3]>>]
SameParses == Len(exp) = Len(Obs.parse) /\ \A i \in 1..Len(exp) : F3(exp[i]) = ObsP(i)
IsBoth(r) == LastOf(r.prov).k = "both"
RECURSIVE HasBoth(_)
HasBoth(prov) == \E j \in 1..Len(prov) :
                    \/ prov[j].k = "both"
                    \/ prov[j].k = "fixed" /\ HasBoth(prov[j].rp)

(* ---- C05: coherence, as observed and as specified ---- *)
WT(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2]>>]
LexObs(it, p) ==
    LET lx == ObsSeq(it.lex)
    IN  (IF Len(lx) = 0 THEN {"lexempty"} ELSE {})
        \cup (IF \E i \in 1..Len(lx) : lx[i][3] # p[3] THEN {"lexnf"} ELSE {})
        \cup (IF ObsSeq(it.lex2) # lx THEN {"lexapi"} ELSE {})
        \cup (IF \A i \in 1..Len(lx) : <<it.norm[1], it.norm[2], it.norm[3]>> # lx[i] THEN {"normlex"} ELSE {})
        \cup (IF it.norm2 # it.norm THEN {"normidem"} ELSE {})
        \cup (IF it.norm[3] # p[3] THEN {"normnf"} ELSE {})
        \cup (IF \E i \in 1..Len(it.deep) : ~it.deep[i].same \/ ~it.deep[i].nfsame THEN {"deep"} ELSE {})
        \cup (IF \E i \in 1..Len(it.deep) : it.deep[i].norm # it.norm THEN {"deepnorm"} ELSE {})
LexSpec(it, p, r) ==
    LET lx == ObsSeq(it.lex)
        el == Lexeme(Form(r))
        en == Normalized(Form(r))
    IN  (IF lx # Seq3(el)
         THEN IF SameBag(lx, Seq3(el)) THEN {"lexorder"} ELSE {"lexspec"} ELSE {})
        \cup (IF ObsSeq(<<it.norm>>) # Seq3(<<en>>) THEN {"normspec"} ELSE {})
        \cup (IF ~HasBoth(r.prov) /\ \A i \in 1..Len(lx) : lx[i] # p THEN {"lexself"} ELSE {})
        \cup (IF ~HasBoth(r.prov) /\ it.norm[1] # p[3] THEN {"normword"} ELSE {})
        \cup (IF ~HasBoth(r.prov) /\ LastOf(r.prov).k # "init" /\ Len(lx) > 0 /\ ObsSeq(<<it.norm>>)[1] # lx[1] THEN {"normfirst"} ELSE {})

(* ---- C06: inflection, judged on the lexeme the implementation reports ---- *)
GSetOf(s) == Grammemes(s)
InflObs(it, p) ==
    LET lx == it.lex
        forms == TLCEval([i \in 1..Len(lx) |-> GSetOf(lx[i][2])])
        G == GSetOf(p[2])
        One(n) ==
            LET req == ToSet(K.req[n])
                o   == it.infl[n]
                err == InflectError(forms, req, KnownG)
                ix  == InflectIndex(G, forms, req, Inc)
            IN  IF err THEN IF o.exc # "ValueError" THEN {"infl_noerror"} ELSE {}
                ELSE IF o.exc # "" THEN {"infl_raised"}
                ELSE IF ix = 0 THEN IF ~o.none THEN {"infl_notnone"} ELSE {}
                ELSE IF o.none THEN {"infl_none"}
                ELSE IF o.form # lx[ix]
                     THEN IF req \subseteq GSetOf(o.form[2]) \/ FixRare(req) \subseteq GSetOf(o.form[2])
                          THEN {"infl_choice"} ELSE {"infl_grammemes"}
                ELSE {}
    IN  UnionAll({One(n) : n \in 1..Len(K.req)})
(* ---- C07: numerals ---- *)
NumObs(it, p) ==
    LET lx == it.lex
        forms == TLCEval([i \in 1..Len(lx) |-> GSetOf(lx[i][2])])
        G == GSetOf(p[2])
        One(n) ==
            LET o == it.num[n]
                gr == Agreement(G, K.nums[n][1], K.nums[n][2])
                ix == InflectIndex(G, forms, gr, Inc)
            IN  IF o.exc # "" THEN {"num_raised"}
                ELSE (IF ToSet(o.gr) # gr THEN {"num_grammemes"} ELSE {})
                     \cup (IF ix = 0 THEN IF ~o.none THEN {"num_form"} ELSE {}
                           ELSE IF o.none \/ o.form # lx[ix] THEN {"num_form"} ELSE {})
    IN  UnionAll({One(n) : n \in 1..Len(K.nums)})

Start == /\ pi = 0 /\ pi' = 1
         /\ bad' = (IF Obs.exc # "" THEN {"raised"} ELSE {}) \cup (IF SameParses THEN {} ELSE {"parsediff"})
         /\ UNCHANGED <<ci, exp>>
Step == /\ pi >= 1 /\ pi <= NItems
        /\ LET it == Obs.items[pi]
               p  == ObsP(pi)
           IN  bad' = bad \cup (IF K.op = "lex" THEN LexObs(it, p) ELSE {})
                          \cup (IF K.op = "lex" /\ SameParses THEN LexSpec(it, p, exp[pi]) ELSE {})
                          \cup (IF K.op = "infl" THEN InflObs(it, p) \cup NumObs(it, p) ELSE {})
        /\ pi' = pi + 1 /\ UNCHANGED <<ci, exp>>
Next == Start \/ Step
Spec == Init /\ [][Next]_vars
Done == pi = NItems + 1

(* ---- the design: laws of lexemes, on every expected parse ---- *)
NoInner(r) == ~HasBoth(r.prov)
DesignLexeme ==
    (Done /\ K.op = "lex") =>
       \A i \in 1..Len(exp) :
          LET f == Form(exp[i])
              L == Lexeme(f)
              n == Normalized(f)
          IN  /\ Len(L) > 0
              /\ \A j \in 1..Len(L) : L[j].nf = f.nf
              /\ NoInner(exp[i]) => \E j \in 1..Len(L) : F3(L[j]) = F3(f)
              /\ NoInner(exp[i]) => n.w = f.nf
              /\ Len(L) <= 40 => \A j \in 1..Len(L) : Seq3(Lexeme(L[j])) = Seq3(L)
              /\ Normalized(n) = n

Report ==
    Done => IF bad = {} THEN PrintT("OK " \o ToString(K.id))
            ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(bad) \o " exp " \o ToString(
                    [i \in 1..Len(exp) |-> <<F3(exp[i]), exp[i].prov,
                        IF K.op = "lex" /\ bad \cap {"lexspec","lexorder","normspec"} # {}
                        THEN <<Seq3(Lexeme(Form(exp[i]))), F3(Normalized(Form(exp[i])))>> ELSE <<>>>>]))
=============================================================================
