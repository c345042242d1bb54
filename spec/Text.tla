-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Strings as TLC strings (indexable by SubSeq/Len), plus sequence helpers *)
(* used by every other module.  All operators are total: slices out of     *)
(* range are clipped, as in Python.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* characters a..b (1-based, inclusive), clipped *)
Sub(s, a, b) ==
    LET lo == Max2(a, 1)
        hi == Min2(b, Len(s))
    IN  IF lo > hi THEN "" ELSE SubSeq(s, lo, hi)

Ch(s, i)        == SubSeq(s, i, i)
Drop(s, n)      == Sub(s, n + 1, Len(s))          \* s[n:]   n >= 0
DropR(s, n)     == Sub(s, 1, Len(s) - n)          \* s[:-n]  n >= 1
TakeR(s, n)     == Sub(s, Len(s) - n + 1, Len(s)) \* s[-n:]  n >= 1
Take(s, n)      == Sub(s, 1, n)
(* s[a:-b], with b = 0 meaning s[a:] -- Python slice semantics *)
Slice(s, a, b)  == Sub(s, a + 1, Len(s) - b)

StartsWith(s, p) == Len(p) <= Len(s) /\ (p = "" \/ SubSeq(s, 1, Len(p)) = p)
EndsWith(s, p)   == Len(p) <= Len(s) /\ (p = "" \/ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p)
Contains(s, ch)  == \E i \in 1..Len(s) : Ch(s, i) = ch
CharSet(s)       == {Ch(s, i) : i \in 1..Len(s)}
Positions(s, ch) == {i \in 1..Len(s) : Ch(s, i) = ch}
CountCh(s, ch)   == Cardinality(Positions(s, ch))
MinOf(S)         == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S)         == CHOOSE x \in S : \A y \in S : x >= y
FirstPos(s, ch)  == LET P == Positions(s, ch) IN IF P = {} THEN 0 ELSE MinOf(P)

(* p occurs in s as a substring; its first position (0 if none) *)
SubstrPos(s, p) ==
    LET P == {i \in 1..(Len(s) - Len(p) + 1) : Sub(s, i, i + Len(p) - 1) = p}
    IN  IF p = "" THEN 1 ELSE IF P = {} THEN 0 ELSE MinOf(P)

RECURSIVE ReplaceCh(_, _, _)
ReplaceCh(s, a, b) ==
    LET p == FirstPos(s, a)
    IN  IF p = 0 THEN s ELSE Take(s, p - 1) \o b \o ReplaceCh(Drop(s, p), a, b)

(* split on a one-character separator; "" gives <<"">> *)
RECURSIVE Split(_, _)
Split(s, sep) ==
    LET p == FirstPos(s, sep)
    IN  IF p = 0 THEN <<s>> ELSE <<Take(s, p - 1)>> \o Split(Drop(s, p), sep)

RECURSIVE Join(_, _)
Join(ss, sep) ==
    IF Len(ss) = 0 THEN ""
    ELSE IF Len(ss) = 1 THEN ss[1]
    ELSE ss[1] \o sep \o Join(Tail(ss), sep)

ToSet(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Concat(_)
Concat(qq) == IF Len(qq) = 0 THEN <<>> ELSE qq[1] \o Concat(Tail(qq))

Map(q, Op(_))  == [i \in 1..Len(q) |-> Op(q[i])]

RECURSIVE SumSeq(_)
SumSeq(q) == IF Len(q) = 0 THEN 0 ELSE q[1] + SumSeq(Tail(q))

(* stable sort: Better(x, y) means x must come before y; ties keep order   *)
StableSort(q, Better(_, _)) ==
    LET Before(i, j) == Better(q[i], q[j])
        RECURSIVE Order(_)
        Order(S) ==
            IF S = {} THEN <<>>
            ELSE LET m == CHOOSE i \in S : \A j \in S \ {i} : Before(i, j) \/ (~Before(j, i) /\ i < j)
                 IN  <<m>> \o Order(S \ {m})
        ix == Order(1..Len(q))
    IN  [k \in 1..Len(q) |-> q[ix[k]]]

(* multiset equality of two sequences *)
SameBag(p, q) ==
    /\ Len(p) = Len(q)
    /\ \A i \in 1..Len(p) :
          Cardinality({j \in 1..Len(p) : p[j] = p[i]}) = Cardinality({j \in 1..Len(q) : q[j] = p[i]})

NoDup(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
IsPrefixSeq(p, q) == Len(p) <= Len(q) /\ \A i \in 1..Len(p) : p[i] = q[i]

(***************************************************************************)
(* Scores are fixed point with ONE = 10^7 (TLC integers are 32 bit).       *)
(***************************************************************************)
ONE == 10000000
TOL == 60                    \* 6e-6: rounding of nested multiplications

Near(a, b) == (a - b) <= TOL /\ (b - a) <= TOL

(* round-down of a * num / den for small num, den (num <= 200) *)
Scale(a, num, den) == (a \div den) * num + ((a % den) * num) \div den

RECURSIVE DivDigits(_, _, _, _)
DivDigits(r, b, n, acc) ==
    IF n = 0 THEN acc
    ELSE DivDigits((r * 10) % b, b, n - 1, acc * 10 + (r * 10) \div b)

(* a / b as a score (0 <= a, 0 < b, a/b < 200) *)
RECURSIVE Ratio(_, _)
Ratio(a, b) ==
    IF b > 200000000 THEN Ratio(a \div 2, b \div 2)
    ELSE (a \div b) * ONE + DivDigits(a % b, b, 7, 0)

(* exact comparison a/b > c/d of non-negative fractions, without overflow *)
RECURSIVE FracGT(_, _, _, _)
FracGT(a, b, c, d) ==
    LET qa == a \div b
        qc == c \div d
        ra == a % b
        rc == c % d
    IN  IF qa # qc THEN qa > qc
        ELSE IF ra = 0 THEN FALSE
        ELSE IF rc = 0 THEN TRUE
        ELSE FracGT(d, rc, b, ra)
=============================================================================
