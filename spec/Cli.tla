--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The token cache of the command line: tokens are formatted one by one;   *)
(* formatted lines are remembered, at most `size` of them, the least       *)
(* recently used one is forgotten.  Whatever the size (0: no cache),       *)
(* the output is the concatenation of the formatted tokens.                *)
(***************************************************************************)
EXTENDS Text
CONSTANTS Toks, MaxLen, Sizes
Format(t) == t \o "{}"
VARIABLES input, pos, size, cache, out
vars == <<input, pos, size, cache, out>>
Init == input \in UNION {[1..n -> Toks] : n \in 0..MaxLen} /\ pos = 1 /\ size \in Sizes /\ cache = <<>> /\ out = ""
T == input[pos]
Hits == {i \in 1..Len(cache) : cache[i][1] = T}
Without(i) == [k \in 1..(Len(cache) - 1) |-> IF k < i THEN cache[k] ELSE cache[k + 1]]
Hit == /\ pos <= Len(input) /\ Hits # {}
       /\ LET i == CHOOSE x \in Hits : TRUE
          IN  out' = out \o cache[i][2] /\ cache' = Append(Without(i), cache[i])
       /\ pos' = pos + 1 /\ UNCHANGED <<input, size>>
Miss == /\ pos <= Len(input) /\ Hits = {}
        /\ out' = out \o Format(T)
        /\ cache' = IF size = 0 THEN cache
                    ELSE LET c == Append(cache, <<T, Format(T)>>) IN IF Len(c) > size THEN Tail(c) ELSE c
        /\ pos' = pos + 1 /\ UNCHANGED <<input, size>>
Next == Hit \/ Miss
Spec == Init /\ [][Next]_vars
Bounded == Len(cache) <= size
Sound == \A i \in 1..Len(cache) : cache[i][2] = Format(cache[i][1])
Same == out = Join([i \in 1..(pos - 1) |-> Format(input[i])], "")
=============================================================================
