------------------------------ MODULE SelectMC ------------------------------
(* All environments and all arguments over a small world, exhaustively.      *)
EXTENDS Select
D == [dru |-> [lang |-> "ru", prob |-> TRUE, ok |-> TRUE],
      duk |-> [lang |-> "uk", prob |-> FALSE, ok |-> TRUE],
      dno |-> [lang |-> "", prob |-> FALSE, ok |-> TRUE],
      dxx |-> [lang |-> "xx", prob |-> TRUE, ok |-> TRUE],
      bad |-> [lang |-> "", prob |-> FALSE, ok |-> FALSE]]
Langs == {"ru", "uk", "xx", "ru-old"}
Home == [l \in Langs |-> CASE l = "ru" -> "dru" [] l = "uk" -> "duk" [] l = "xx" -> "dxx" [] OTHER -> "dno"]
Args == [path : {NONE} \cup DOMAIN D, lang : {NONE, "qq"} \cup Langs, units : {NONE, "own"}, subst : {"auto", "none", "own"},
         est : {"auto", "none", "table", "half"}, rt : {"Parse"}]
VARIABLES inst, env, arg
vars == <<inst, env, arg>>
NoArg == [path |-> "?"]
Init == inst \in {[l \in S |-> Home[l]] : S \in SUBSET Langs} /\ env \in {NONE, "duk", "dno", "bad"} /\ arg = NoArg
Create == arg = NoArg /\ arg' \in Args /\ UNCHANGED <<inst, env>>
Next == Create
Spec == Init /\ [][Next]_vars
R == Outcome(D, inst, env, arg)
Made == arg # NoArg /\ R.exc = ""
(* the documented precedence *)
PathWins == Made /\ arg.path # NONE => R.dict = arg.path
EnvNext == Made /\ arg.path = NONE /\ env # NONE => R.dict = env
InstalledLast == Made /\ arg.path = NONE /\ env = NONE => R.dict = Home[IF arg.lang = NONE THEN "ru" ELSE arg.lang]
NoDictionary == (arg # NoArg /\ R.exc = "ValueError") =>
                    (arg.path = NONE /\ env = NONE /\ (IF arg.lang = NONE THEN "ru" ELSE arg.lang) \notin DOMAIN inst)
LangWins == Made /\ arg.lang # NONE => R.lang = arg.lang
(* given the dictionary, the rest does not depend on how it was found *)
Independent == Made => LET o == Outcome(D, <<>>, NONE, [arg EXCEPT !.path = R.dict, !.lang = ArgLang(arg)]) IN o = R
(* a language with no surprise gives no warning *)
Quiet == Made /\ R.lang = D[R.dict].lang /\ R.lang \in CONFIGURED => R.warns = {}
=============================================================================
