------------------------------ MODULE TagTrace ------------------------------
(***************************************************************************)
(* Tag objects: every recorded call on a tag (and on its class) against    *)
(* Tagset.tla.  A case is the history of one tag object: its source string *)
(* and a sequence of calls with their outcomes; one step per call.         *)
(* Ctx.gts: grammeme tables in force (dictionary table plus what the units *)
(* of the analyzer register), sequences of <<name, parent, alias, descr>>. *)
(***************************************************************************)
EXTENDS Tagset, Context

GTs == TLCEval(Ctx.gts)
KnownOf == TLCEval([n \in 1..Len(GTs) |-> Names(GTs[n])])
Lat2Cyr == TLCEval([n \in 1..Len(GTs) |-> [g \in KnownOf[n] |-> GTs[n][LastIdx(GTs[n], g)][3]]])
Aliases == TLCEval([n \in 1..Len(GTs) |-> {GTs[n][i][3] : i \in 1..Len(GTs[n])}])
Cyr2Lat == TLCEval([n \in 1..Len(GTs) |-> [a \in Aliases[n] |->
                LET X == {i \in 1..Len(GTs[n]) : GTs[n][i][3] = a} IN GTs[n][MaxOf(X)][1]]])
(* the translation tables are inverse to each other *)
Injective == \A n \in 1..Len(GTs) : \A g \in KnownOf[n] : Cyr2Lat[n][Lat2Cyr[n][g]] = g

VARIABLES ci, k, alive, bad
vars == <<ci, k, alive, bad>>
K == Cases[ci]
known == KnownOf[K.gt]
L2C == Lat2Cyr[K.gt]
C2L == Cyr2Lat[K.gt]
Q == TagSeq(K.s)
G == ToSet(Q)

Valid(s) == TagSeq(s) # <<>> /\ ToSet(TagSeq(s)) \subseteq known
Fail(o, c) == {c \o (IF o.exc # "" THEN "_raised" ELSE "")}

(* the clauses broken by one call *)
Judge(a, o) ==
    CASE a.o = "in" ->
            IF a.g \in G THEN IF o.exc = "" /\ o.b THEN {} ELSE Fail(o, "in")
            ELSE IF a.g \in known THEN IF o.exc = "" /\ ~o.b THEN {} ELSE Fail(o, "in")
            ELSE IF o.exc = "ValueError" THEN {} ELSE {"in_noerror"}
      [] a.o = "inset" ->
            LET R == ToSet(a.q) IN
            IF R \subseteq G THEN IF o.exc = "" /\ o.b THEN {} ELSE Fail(o, "inset")
            ELSE IF R \subseteq known THEN IF o.exc = "" /\ ~o.b THEN {} ELSE Fail(o, "inset")
            ELSE IF o.exc = "ValueError" THEN {} ELSE {"inset_noerror"}
      [] a.o = "attr" ->
            IF o.exc # "" THEN {"attr_raised"}
            ELSE IF InCategory(G, a.c) = {} THEN IF o.none THEN {} ELSE {"attr"}
            ELSE IF ~o.none /\ o.s \in InCategory(G, a.c) THEN {} ELSE {"attr"}
      [] a.o = "cmp" ->        \* tag.attr == value
            LET X == InCategory(G, a.c) IN
            IF X = {} THEN IF o.exc = "" /\ ~o.b THEN {} ELSE Fail(o, "cmp")
            ELSE IF a.g \notin CATEGORY[a.c] THEN IF o.exc = "ValueError" THEN {} ELSE {"cmp_noerror"}
            ELSE IF Cardinality(X) = 1 THEN IF o.exc = "" /\ o.b = (a.g \in X) THEN {} ELSE Fail(o, "cmp")
            ELSE IF o.exc = "" /\ (a.g \notin X => ~o.b) THEN {} ELSE Fail(o, "cmp")
      [] a.o = "ncmp" ->       \* tag.attr != value
            LET X == InCategory(G, a.c) IN
            IF X = {} THEN IF o.exc = "" /\ o.b THEN {} ELSE Fail(o, "cmp")
            ELSE IF a.g \notin CATEGORY[a.c] THEN IF o.exc = "ValueError" THEN {} ELSE {"cmp_noerror"}
            ELSE IF Cardinality(X) = 1 THEN IF o.exc = "" /\ o.b = (a.g \notin X) THEN {} ELSE Fail(o, "cmp")
            ELSE IF o.exc = "" /\ (a.g \notin X => o.b) THEN {} ELSE Fail(o, "cmp")
      [] a.o = "cmpnone" -> IF o.exc = "" /\ o.b = (InCategory(G, a.c) = {}) THEN {} ELSE Fail(o, "cmp")
      [] a.o = "attrset" ->    \* tag.attr in a set of grammemes of the category
            LET X == InCategory(G, a.c) IN
            IF o.exc # "" THEN {"attr_raised"}
            ELSE IF Cardinality(X) <= 1 /\ o.b # (X # {} /\ X \subseteq ToSet(a.q)) THEN {"attr"} ELSE {}
      [] a.o = "pair" ->       \* against another valid tag: eq, ne, lt, gt, hash, and lt/gt swapped
            LET same == TagSeq(a.t) = Q IN
            IF o.exc # "" THEN {"order_raised"}
            ELSE (IF o.eq = same /\ o.ne = ~same THEN {} ELSE {"eq"})
                 \cup (IF same => o.hash THEN {} ELSE {"hash"})
                 \cup (IF o.lt = ~(o.gt \/ same) /\ o.gt = ~(o.lt \/ same) /\ o.rlt = o.gt /\ o.rgt = o.lt THEN {} ELSE {"order"})
      [] a.o = "triple" ->     \* transitivity
            IF o.exc # "" THEN {"order_raised"}
            ELSE IF (o.ab /\ o.bc) => o.ac THEN {} ELSE {"order"}
      [] a.o = "str"   -> IF o.exc = "" /\ o.s = K.s THEN {} ELSE Fail(o, "str")
      [] a.o = "grammemes" -> IF o.exc = "" /\ ToSet(o.q) = G /\ Len(o.q) = Cardinality(G) THEN {} ELSE Fail(o, "grammemes")
      [] a.o = "pickle" -> IF o.exc = "" /\ o.b /\ o.s = K.s THEN {} ELSE Fail(o, "pickle")
      [] a.o = "new"   -> IF Valid(a.s) THEN IF o.exc = "" THEN {} ELSE {"new_raised"}
                          ELSE IF o.exc = "ValueError" THEN {} ELSE {"new_noerror"}
      [] a.o = "cyr_repr" -> IF o.exc = "" /\ o.s = Translate(L2C, K.s) THEN {} ELSE Fail(o, "cyr_repr")
      [] a.o = "grammemes_cyr" -> IF o.exc = "" /\ ToSet(o.q) = {L2C[g] : g \in G} /\ Len(o.q) = Cardinality(ToSet(o.q)) THEN {} ELSE Fail(o, "grammemes_cyr")
      [] a.o = "lat2cyr" -> IF o.exc = "" /\ o.s = Translate(L2C, a.s) THEN {} ELSE Fail(o, "lat2cyr")
      [] a.o = "cyr2lat" -> IF o.exc = "" /\ o.s = Translate(C2L, a.s) THEN {} ELSE Fail(o, "cyr2lat")
      [] a.o = "roundtrip" ->  \* cyr2lat(lat2cyr(x)) = x for tags
            IF o.exc = "" /\ o.s = a.s THEN {} ELSE Fail(o, "roundtrip")

Init == ci \in 1..Len(Cases) /\ k = 0 /\ alive = FALSE /\ bad = {}
(* construction: unknown grammemes are refused *)
New == /\ k = 0 /\ k' = 1 /\ UNCHANGED ci
       /\ alive' = Valid(K.s)
       /\ bad' = IF Valid(K.s) = (K.obs.exc = "") /\ (K.obs.exc \in {"", "ValueError"}) THEN {} ELSE {"new"}
Call == /\ alive /\ K.obs.exc = "" /\ k >= 1 /\ k <= Len(K.ops)
        /\ bad' = bad \cup Judge(K.ops[k], K.obs.calls[k])
        /\ k' = k + 1 /\ UNCHANGED <<ci, alive>>
Next == New \/ Call
Spec == Init /\ [][Next]_vars
Done == k > 0 /\ (k > Len(K.ops) \/ ~alive \/ K.obs.exc # "")
(* translation of a tag is invertible *)
Invertible == (Done /\ alive) => Translate(C2L, Translate(L2C, K.s)) = K.s
TablesInverse == k = 0 => \A g \in known : C2L[L2C[g]] = g
Report == Done => IF bad = {} THEN PrintT("OK " \o ToString(K.id))
                  ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(bad) \o " " \o
                          ToString({<<K.ops[n], K.obs.calls[n]>> : n \in {m \in 1..Len(K.ops) : alive /\ K.obs.exc = "" /\ Judge(K.ops[m], K.obs.calls[m]) # {}}}))
=============================================================================
