------------------------------- MODULE HistGen -------------------------------
(* Histories of Analyzers.tla, generated for replay against the code.      *)
EXTENDS Analyzers, Json, IOUtils

G == JsonDeserialize(IOEnv.VP_GEN)
(* G.nc configurations, G.nq calls, G.depth events, G.live analyzers,       *)
(* G.slots held results, G.kinds kinds of events                           *)
Kinds == {G.kinds[i] : i \in 1..Len(G.kinds)}
VARIABLE hist
None(c) == {}
E(k, x, y) == k \o " " \o ToString(x) \o " " \o ToString(y)
Step(ev) == hist' = Append(hist, ev)
Has(k) == k \in Kinds
Create == Has("create") /\ Len(live) < G.live /\ \E c \in 1..G.nc : CreateA(c, None) /\ Step(E("create", c, 0))
Copy   == Has("copy") /\ Len(live) < G.live /\ \E a \in 1..Len(live), p \in 1..G.copies : CopyA(a, None) /\ Step(E("copy", a, p))
Drop   == Has("drop") /\ Len(live) > 1 /\ \E a \in 1..Len(live) : DropA(a) /\ Step(E("drop", a, 0))
Call   == Has("call") /\ \E a \in 1..Len(live), q \in 1..G.nq : CallA(a, q) /\ Step(E("call", a, q))
Hold   == Has("hold") /\ Len(slots) < G.slots /\ \E a \in 1..Len(live), q \in 1..G.nq : HoldA(a, q) /\ Step(E("hold", a, q))
Later  == Has("later") /\ \E s \in 1..Len(slots) : LaterA(s) /\ Step(E("later", s, 0))
Mutate == Has("mutate") /\ \E a \in 1..Len(live), q \in 1..G.nq : MutateA(a) /\ Step(E("mutate", a, q))
Init == AInit /\ hist = <<>>
Next == Len(hist) < G.depth /\ (Create \/ Copy \/ Drop \/ Call \/ Hold \/ Later \/ Mutate)
Spec == Init /\ [][Next]_<<avars, hist>>
(* histories that end with something observed *)
Observed(ev) == SubSeq(ev, 1, 4) \in {"call", "late"}
Emit == (Len(hist) = G.depth /\ Observed(hist[G.depth])) => PrintT("H " \o ToString(hist))
=============================================================================
