------------------------------ MODULE Analyzers ------------------------------
(***************************************************************************)
(* The life of a process that uses the library: analyzers are created,     *)
(* copied (pickled and unpickled) and dropped; calls are made on live      *)
(* analyzers, in two phases (the result is obtained, and looked at later); *)
(* callers modify what they got.  Calls may run in several threads.        *)
(*                                                                         *)
(* An answer is an opaque value.  Ref[c][q] is the answer to call q of an  *)
(* analyzer of configuration c that is alone in its process and was never  *)
(* used before.  The guarantee: whatever happened before and whatever      *)
(* happens at the same time, the answer is Ref[c][q].                      *)
(*                                                                         *)
(* The one exception is explicit: all analyzers share a table of grammemes *)
(* and a call that mentions a grammeme which is unknown to its own         *)
(* analyzer, but known because of the units of others, may differ.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES live,     \* sequence of [c |-> configuration, on |-> not dropped]
          slots,    \* results being held: <<analyzer, call>>
          reg,      \* grammemes registered by the units of any analyzer so far
          run       \* thread -> operation in progress
avars == <<live, slots, reg, run>>

CONSTANT NoOp
Threads == 1..3
AInit == live = <<>> /\ slots = <<>> /\ reg = {} /\ run = [t \in Threads |-> NoOp]
Alive(a) == a \in 1..Len(live) /\ live[a].on

(* Know(c): grammemes of the units of c;  Gram(c, q): grammemes mentioned   *)
(* by q that the configuration does not know                               *)
CreateA(c, Know(_)) ==
    /\ live' = Append(live, [c |-> c, on |-> TRUE])
    /\ reg' = reg \cup Know(c)
    /\ UNCHANGED <<slots, run>>
CopyA(a, Know(_)) == Alive(a) /\ CreateA(live[a].c, Know)
DropA(a) == Alive(a) /\ live' = [live EXCEPT ![a].on = FALSE] /\ UNCHANGED <<slots, reg, run>>
HoldA(a, q) == Alive(a) /\ slots' = Append(slots, <<a, q>>) /\ UNCHANGED <<live, reg, run>>
MutateA(a) == Alive(a) /\ UNCHANGED avars
(* what a call may answer *)
Right(Ref, Gram(_, _), c, q, ans) ==
    \/ ans = Ref[c][q]
    \/ Gram(c, q) # {} /\ Gram(c, q) \cap reg # {}
CallA(a, q) == Alive(a) /\ UNCHANGED avars
LaterA(s) == s \in 1..Len(slots) /\ UNCHANGED avars
(* threads: an operation has begun / returned; its effect on the shared     *)
(* table may happen at any point in between, so it is allowed at once      *)
BeginA(t, op, Know(_)) ==
    /\ run[t] = NoOp /\ run' = [run EXCEPT ![t] = op]
    /\ reg' = IF op[1] = "create" THEN reg \cup Know(op[2]) ELSE reg
    /\ UNCHANGED <<live, slots>>
EndA(t) ==
    /\ run[t] # NoOp /\ run' = [run EXCEPT ![t] = NoOp]
    /\ live' = IF run[t][1] = "create" THEN Append(live, [c |-> run[t][2], on |-> TRUE]) ELSE live
    /\ UNCHANGED <<slots, reg>>
=============================================================================
