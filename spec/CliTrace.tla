------------------------------- MODULE CliTrace -------------------------------
(***************************************************************************)
(* "pymorphy parse": what it prints, token after token.                     *)
(* K.text, K.cls; K.opt: [l, s, t: flags; tokenized; thresh (10^-8)];       *)
(* K.ana[tok]: sequence of <<normal form, score (10^-8), tag>> that the     *)
(* analyzer gives; K.tags[tok]: its tag() answer.  K.obs: [exc, out].       *)
(***************************************************************************)
EXTENDS CaseList, Lexer
VARIABLES ci, n, pos, bad
vars == <<ci, n, pos, bad>>
K == Cases[ci]
Opt == K.opt
Flags == Opt.l \/ Opt.s \/ Opt.t
L == IF Flags THEN Opt.l ELSE TRUE
S == IF Flags THEN Opt.s ELSE TRUE
G == IF Flags THEN Opt.t ELSE TRUE
Input == TLCEval([k \in 1..Len(Cases) |-> IF Cases[k].opt.tokenized THEN Lines(Cases[k].cls, Cases[k].text) ELSE Tokens(Cases[k].cls, Cases[k].text)])
Out == K.obs.out

(* matching the output from a position; a number is matched up to rounding *)
DIGITS == [d \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
              CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "2" -> 2 [] d = "3" -> 3 [] d = "4" -> 4 [] d = "5" -> 5 [] d = "6" -> 6 [] d = "7" -> 7 [] d = "8" -> 8 [] OTHER -> 9]
RECURSIVE Num(_, _)
Num(s, acc) == IF s = "" THEN acc ELSE Num(Drop(s, 1), acc * 10 + DIGITS[Ch(s, 1)])
MatchStr(p, s) == IF p > 0 /\ Sub(Out, p, p + Len(s) - 1) = s THEN p + Len(s) ELSE 0
NumberAt(p, u) ==                 \* d.ddd or dd.ddd
    LET try(k) == LET a == Sub(Out, p, p + k - 1)
                      f == Sub(Out, p + k + 1, p + k + 3)
                  IN  IF p > 0 /\ Sub(Out, p + k, p + k) = "." /\ Len(f) = 3 /\ CharSet(a \o f) \subseteq DOMAIN DIGITS
                      THEN LET x == Num(a \o f, 0) * 100000 IN IF x - u <= 50010 /\ u - x <= 50010 THEN p + k + 4 ELSE 0
                      ELSE 0
    IN  IF try(1) > 0 THEN try(1) ELSE try(2)
Sep(p, first) == IF first THEN p ELSE MatchStr(p, "|")

Item(p, a) ==
    LET p1 == IF L THEN MatchStr(p, a[1] \o (IF S \/ G THEN ":" ELSE "")) ELSE p
        p2 == IF S THEN NumberAt(p1, a[2]) ELSE p1
        p3 == IF G THEN MatchStr(p2, (IF S THEN "=" ELSE "") \o a[3]) ELSE p2
    IN  p3
RECURSIVE Items(_, _, _)
Items(p, q, first) == IF q = <<>> THEN p ELSE Items(Item(Sep(p, first), Head(q)), Tail(q), FALSE)
RECURSIVE Words(_, _, _)
Words(p, q, first) == IF q = <<>> THEN p ELSE Words(MatchStr(Sep(p, first), Head(q)), Tail(q), FALSE)

(* lemmas and their weights *)
Lemmas(q) == {q[i][1] : i \in 1..Len(q)}
Weight(q, l) == SumSeq([i \in 1..Len(q) |-> IF q[i][1] = l THEN q[i][2] ELSE 0])
Close == 10
(* best first; lemmas of equal weight in any order *)
RECURSIVE Ranked(_, _, _, _)
Ranked(p, w, left, first) ==
    IF left = {} THEN {p}
    ELSE UNION {LET q == MatchStr(Sep(p, first), l)
                    e == IF S THEN NumberAt(MatchStr(q, ":"), w[l]) ELSE q
                IN  IF e = 0 THEN {} ELSE Ranked(e, w, left \ {l}, FALSE)
                : l \in {x \in left : \A y \in left : w[y] <= w[x] + Close}}

Reach(u) == u >= Opt.thresh
(* the positions where the line of a token may end (none: it is not there) *)
LineEnds(p, tok) ==
    LET q == K.ana[tok]
        p0 == MatchStr(p, tok \o "{")
        kept == SelectSeq(q, LAMBDA a : Reach(a[2]))
        agg == LET w == [l \in Lemmas(q) |-> Weight(q, l)] IN Ranked(p0, w, {l \in Lemmas(q) : Reach(w[l])}, TRUE)
        ends == IF L /\ ~G THEN agg
                ELSE {Items(p0, kept, TRUE)} \cup (IF ~L /\ ~S /\ Opt.thresh = 0 THEN {Words(p0, K.tags[tok], TRUE)} ELSE {})
    IN  {MatchStr(e, "}\n") : e \in ends \ {0}} \ {0}

Init == ci \in 1..Len(Cases) /\ n = 1 /\ pos = 1 /\ bad = {}
Toks == Input[ci]
More == K.obs.exc = "" /\ bad = {} /\ n <= Len(Toks)
Line == /\ More
        /\ IF Toks[n] \notin DOMAIN K.ana THEN bad' = {"tokens"} /\ UNCHANGED pos
           ELSE LET e == LineEnds(pos, Toks[n])
                IN  IF e = {} THEN bad' = {"line"} /\ UNCHANGED pos ELSE pos' \in e /\ UNCHANGED bad
        /\ n' = n + 1 /\ UNCHANGED ci
Next == Line
Spec == Init /\ [][Next]_vars
(* scores alone are no output *)
Clauses == IF S /\ ~L /\ ~G THEN IF K.obs.exc = "ValueError" /\ Out = "" THEN {} ELSE {"emptyoutput"}
           ELSE IF K.obs.exc # "" THEN {"raised"}
           ELSE bad \cup (IF bad = {} /\ pos # Len(Out) + 1 THEN {"extra"} ELSE {})
Report == ~More => IF Clauses = {} THEN PrintT("OK " \o ToString(K.id))
                   ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(Clauses) \o " at " \o Sub(Out, pos, pos + 200))
=============================================================================
