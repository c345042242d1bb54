-------------------------------- MODULE Lexer --------------------------------
(***************************************************************************)
(* Tokens of a text: maximal runs of word characters and single other      *)
(* characters that are not white space.                                    *)
(* cls[ch]: "W" letter or digit, "S" white space; other characters have no *)
(* entry.  Underscore and hyphen belong to words.                          *)
(***************************************************************************)
EXTENDS Text
HasCls(cls, ch, c) == ch \in DOMAIN cls /\ Contains(cls[ch], c)
WordCh(cls, ch) == ch \in {"_", "-"} \/ HasCls(cls, ch, "W")
Space(cls, ch) == HasCls(cls, ch, "S")
RECURSIVE RunEnd(_, _, _)
RunEnd(cls, s, i) == IF i <= Len(s) /\ WordCh(cls, Ch(s, i)) THEN RunEnd(cls, s, i + 1) ELSE i
RECURSIVE TokensFrom(_, _, _)
TokensFrom(cls, s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE IF WordCh(cls, Ch(s, i)) THEN LET e == RunEnd(cls, s, i) IN <<SubSeq(s, i, e - 1)>> \o TokensFrom(cls, s, e)
    ELSE (IF Space(cls, Ch(s, i)) THEN <<>> ELSE <<Ch(s, i)>>) \o TokensFrom(cls, s, i + 1)
Tokens(cls, s) == TokensFrom(cls, s, 1)

(* lines, without white space at their ends and without empty ones *)
RECURSIVE LStrip(_, _), RStrip(_, _)
LStrip(cls, s) == IF s # "" /\ Space(cls, Ch(s, 1)) THEN LStrip(cls, Drop(s, 1)) ELSE s
RStrip(cls, s) == IF s # "" /\ Space(cls, Ch(s, Len(s))) THEN RStrip(cls, DropR(s, 1)) ELSE s
Strip(cls, s) == LStrip(cls, RStrip(cls, s))
Lines(cls, s) == SelectSeq(Map(Split(ReplaceCh(s, "\r", "\n"), "\n"), LAMBDA l : Strip(cls, l)), LAMBDA l : l # "")
=============================================================================
