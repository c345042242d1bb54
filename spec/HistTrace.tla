------------------------------ MODULE HistTrace ------------------------------
(***************************************************************************)
(* Recorded histories of the real library against Analyzers.tla.           *)
(* Ctx: ref[c][q] reference answers; know[c] grammemes registered by the   *)
(* units of configuration c; gram[c][q] grammemes mentioned by q that c    *)
(* does not know.  A case is a sequence of events                          *)
(*   [k: kind, t: thread, a: analyzer/slot/configuration, q: call, ans]    *)
(***************************************************************************)
EXTENDS Analyzers, CaseList
HCtx == JsonDeserialize(IOEnv.VP_CTX)
Ref  == HCtx.ref
KnowT == TLCEval([c \in 1..Len(HCtx.know) |-> ToSet(HCtx.know[c])])
GramT == TLCEval([c \in 1..Len(HCtx.gram) |-> TLCEval([q \in 1..Len(HCtx.gram[c]) |-> ToSet(HCtx.gram[c][q])])])
Know(c) == KnowT[c]
Gram(c, q) == GramT[c][q]

VARIABLES ci, k, bad
vars == <<avars, ci, k, bad>>
Evs == Cases[ci].evs
E == Evs[k]
Ok(c, q, ans) == Right(Ref, Gram, c, q, ans)
Init == AInit /\ ci \in 1..Len(Cases) /\ k = 1 /\ bad = {}
More == k <= Len(Evs)
Go(kind) == More /\ E.k = kind /\ k' = k + 1 /\ UNCHANGED ci
Broken(cond, cl) == bad' = bad \cup (IF cond THEN {} ELSE {cl})
EvCreate == Go("create") /\ CreateA(E.a, Know) /\ Broken(E.ans = "", "create")
EvCopy   == Go("copy") /\ CopyA(E.a, Know) /\ Broken(E.ans = "", "copy")
EvDrop   == Go("drop") /\ DropA(E.a) /\ Broken(E.ans = "", "drop")
EvHold   == Go("hold") /\ HoldA(E.a, E.q) /\ UNCHANGED bad
EvMutate == Go("mutate") /\ MutateA(E.a) /\ UNCHANGED bad
EvCall   == Go("call") /\ CallA(E.a, E.q) /\ Broken(Ok(live[E.a].c, E.q, E.ans), "call")
EvLater  == Go("later") /\ LaterA(E.a) /\ Broken(Ok(live[slots[E.a][1]].c, slots[E.a][2], E.ans), "later")
(* a thread's operation: <<"create", c>> or <<"call", analyzer, q>> *)
EvBegin  == Go("begin") /\ BeginA(E.t, IF E.op = "create" THEN <<"create", E.a>> ELSE <<"call", E.a, E.q>>, Know) /\ UNCHANGED bad
EvEnd    == /\ Go("end") /\ EndA(E.t)
          /\ LET o == run[E.t] IN
             IF o[1] = "create" THEN Broken(E.ans = "", "threadcreate")
             ELSE Broken(Ok(live[o[2]].c, o[3], E.ans), "thread")
Next == EvCreate \/ EvCopy \/ EvDrop \/ EvHold \/ EvMutate \/ EvCall \/ EvLater \/ EvBegin \/ EvEnd
Spec == Init /\ [][Next]_vars
Finished == k > Len(Evs)
Stuck == ~Finished /\ ~ENABLED Next     \* the recorded events are not a behaviour at all
Report == /\ Finished => IF bad = {} THEN PrintT("OK " \o ToString(Cases[ci].id))
                         ELSE PrintT("BAD " \o ToString(Cases[ci].id) \o " " \o ToString(bad))
          /\ Stuck => PrintT("BAD " \o ToString(Cases[ci].id) \o " " \o ToString(bad \cup {"impossible"}))
=============================================================================
