----------------------------- MODULE SelectTrace -----------------------------
(* A recorded process: events [op, x, y, a, obs]; see harness/drive_sel.py    *)
EXTENDS Context, Select
VARIABLES ci, i, inst, env, bad
vars == <<ci, i, inst, env, bad>>
K == Cases[ci]
D == Ctx.dicts
E == K.evs[i]
Init == ci \in 1..Len(Cases) /\ i = 1 /\ inst = <<>> /\ env = NONE /\ bad = {}
More == i <= Len(K.evs)
Step == More /\ i' = i + 1 /\ UNCHANGED ci
Install == Step /\ E.op = "install" /\ inst' = (E.x :> E.y) @@ inst /\ UNCHANGED <<env, bad>>
Remove  == Step /\ E.op = "remove" /\ inst' = [l \in DOMAIN inst \ {E.x} |-> inst[l]] /\ UNCHANGED <<env, bad>>
SetEnv  == Step /\ E.op = "env" /\ env' = E.x /\ UNCHANGED <<inst, bad>>
Find1   == Step /\ E.op = "find" /\ UNCHANGED <<inst, env>>
           /\ bad' = bad \cup (IF E.obs # Find(inst, E.x) THEN {"find"} ELSE {})
Diff(o, x) == IF x.exc = "*" THEN (IF o.exc = "" THEN {"notrefused"} ELSE {})
              ELSE IF o.exc # x.exc THEN {"exception"}
              ELSE IF x.exc # "" THEN {}
              ELSE {f \in {"dict", "lang", "units", "subst", "est", "rt"} : o[f] # x[f]}
                   \cup (IF o.warns # Cardinality(x.warns) THEN {"warnings"} ELSE {})
Create1 == Step /\ E.op = "create" /\ UNCHANGED <<inst, env>>
           /\ bad' = bad \cup Diff(E.obs, Outcome(D, inst, env, E.a))
Next == Install \/ Remove \/ SetEnv \/ Find1 \/ Create1
Spec == Init /\ [][Next]_vars
Report == ~More => IF bad = {} THEN PrintT("OK " \o ToString(K.id))
                   ELSE PrintT("BAD " \o ToString(K.id) \o " " \o ToString(bad))
=============================================================================
