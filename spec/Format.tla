------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The dictionary format: what a folder must contain for a compiled        *)
(* dictionary C, and which folders may be loaded.                          *)
(* C: [gramtab, suffixes, paradigms, words, pred, grammemes, pp, lexemes,  *)
(*     links]                                                              *)
(***************************************************************************)
EXTENDS Text
MAJOR == "2"
(* "same": accepted, "other": refused, "?": three or more parts, not said  *)
FormatClass(v) ==
    LET p == Split(v, ".")
    IN  IF Len(p) = 1 \/ p[1] # MAJOR THEN "other" ELSE IF Len(p) = 2 THEN "same" ELSE "?"

(* paradigms.array: unsigned 16-bit numbers, low byte first *)
U16(n) == <<n % 256, n \div 256>>
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN <<>> ELSE U16(Head(q)) \o Bytes(Tail(q))
Encode(ps) == U16(Len(ps)) \o Concat([i \in 1..Len(ps) |-> U16(Len(ps[i])) \o Bytes(ps[i])])
Num16(b, i) == b[i] + 256 * b[i + 1]
RECURSIVE DecodeN(_, _, _)
DecodeN(b, i, n) == IF n = 0 THEN <<>>
                    ELSE LET len == Num16(b, i)
                         IN  <<[k \in 1..len |-> Num16(b, i + 2 * k)]>> \o DecodeN(b, i + 2 + 2 * len, n - 1)
Decode(b) == DecodeN(b, 3, Num16(b, 1))

(* the tag in the other (Cyrillic) notation: grammemes are replaced by their aliases *)
Aliases(gs) == [n \in {gs[i][1] : i \in 1..Len(gs)} |->
                  LET a == gs[CHOOSE i \in 1..Len(gs) : gs[i][1] = n][3] IN IF a = "" THEN n ELSE a]
Alias(g, al) == IF g \in DOMAIN al THEN al[g] ELSE g
External(tag, al) ==
    LET Part(p) == LET gs == Split(p, ",") IN Join([i \in 1..Len(gs) |-> Alias(gs[i], al)], ",")
        ps == Split(tag, " ")
    IN  Join([i \in 1..Len(ps) |-> Part(ps[i])], " ")

(* metadata that must describe the contents *)
Counts(C) == [gramtab_length |-> Len(C.gramtab), suffixes_length |-> Len(C.suffixes), paradigms_length |-> Len(C.paradigms),
              words_dawg_length |-> Len(C.words), prediction_suffixes_dawg_lengths |-> [i \in 1..Len(C.pred) |-> Len(C.pred[i])],
              source_lexemes_count |-> C.lexemes, source_links_count |-> C.links]
=============================================================================
