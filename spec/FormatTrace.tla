----------------------------- MODULE FormatTrace -----------------------------
(***************************************************************************)
(* Recorded savings and loadings.  K.kind:                                 *)
(*  "round":   K.mem (compiled), K.bytes (paradigms.array), K.loaded: what *)
(*             each backend loaded, K.meta, K.given (arguments)            *)
(*  "version": K.v, K.obs ("loaded" | exception)                           *)
(*  "folder":  K.exists, K.overwrite, K.before, K.after, K.want: digests   *)
(***************************************************************************)
EXTENDS CaseList, Format
VARIABLES ci, ph
vars == <<ci, ph>>
K == Cases[ci]
Init == ci \in 1..Len(Cases) /\ ph = "mem"
Next == \/ ph = "mem" /\ K.kind = "round" /\ ph' = "disk" /\ UNCHANGED ci
        \/ ph = "disk" /\ ph' = "loaded" /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
FIELDS == {"gramtab", "suffixes", "paradigms", "pred", "grammemes", "pp"}
(* the encoding can be undone *)
Reversible == ph = "disk" => Decode(Encode(K.mem.paradigms)) = K.mem.paradigms
RoundClauses ==
    IF K.exc # "" THEN {"raised"} ELSE
    (IF K.bytes # Encode(K.mem.paradigms) THEN {"encoding"} ELSE {})
    \cup {f \in FIELDS : \E i \in 1..Len(K.loaded) : K.loaded[i][f] # K.mem[f]}
    \* the grammemes are those of the source; the table of tags in the other notation is its translation
    \cup (IF K.mem.grammemes # K.source THEN {"source"} ELSE {})
    \cup (IF \E i \in 1..Len(K.loaded) : K.loaded[i].ext # [k \in 1..Len(K.mem.gramtab) |-> External(K.mem.gramtab[k], Aliases(K.mem.grammemes))] THEN {"external"} ELSE {})
    \cup (IF \E i \in 1..Len(K.loaded) : ~SameBag(K.loaded[i].words, K.mem.words) THEN {"words"} ELSE {})
    \cup {f \in DOMAIN Counts(K.mem) : K.meta[f] # Counts(K.mem)[f]}
    \cup {f \in DOMAIN K.given : K.meta[f] # K.given[f]}
    \cup (IF \E i \in 1..Len(K.loaded) : K.loaded[i].meta # K.meta THEN {"meta"} ELSE {})
VersionClauses ==
    LET c == FormatClass(K.v)
    IN  IF c = "same" /\ K.obs # "loaded" THEN {"refused"} ELSE IF c = "other" /\ K.obs = "loaded" THEN {"accepted"} ELSE {}
FolderClauses ==
    IF K.exists /\ ~K.overwrite THEN IF K.after # K.before THEN {"touched"} ELSE {}
    ELSE IF K.exc # "" THEN {"raised"}
    ELSE IF K.load # "new" THEN {"contents"} ELSE {}
Clauses == CASE K.kind = "round" -> RoundClauses [] K.kind = "version" -> VersionClauses [] OTHER -> FolderClauses
Done == K.kind # "round" \/ ph = "loaded"
Report == Done => LET v == Clauses IN IF v = {} THEN PrintT("OK " \o ToString(K.id)) ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(v))
=============================================================================
