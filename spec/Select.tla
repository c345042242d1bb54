------------------------------- MODULE Select -------------------------------
(***************************************************************************)
(* Which dictionary, language, units, substitutes and estimator an analyzer *)
(* gets.  The environment of a process changes: packages are installed and  *)
(* removed, the variable PYMORPHY2_DICT_PATH is set and unset; analyzers    *)
(* are constructed in between.                                              *)
(*                                                                         *)
(* Dicts: a function from locations to [lang, prob, ok]; lang "" means that *)
(* the dictionary does not declare one; ok is FALSE for what cannot be      *)
(* loaded (missing folder, unsupported format).                             *)
(* An installed package is a pair language -> location; the package         *)
(* "ru-old" is the one of old releases.                                     *)
(***************************************************************************)
EXTENDS Text

NONE == "-"                  \* argument not given / variable not set
CONFIGURED == {"ru", "uk"}   \* languages with a configuration
Alias(l) == IF l = "ru-old" THEN "ru" ELSE l

(* arguments: path, lang, units, subst, est, rt *)
ArgLang(a) == IF a.path = NONE /\ a.lang = NONE THEN "ru" ELSE a.lang
Location(inst, env, a) ==
    CASE a.path # NONE -> a.path
      [] env # NONE -> env
      [] ArgLang(a) \in DOMAIN inst -> inst[ArgLang(a)]
      [] OTHER -> NONE
Language(D, loc, a) ==
    IF ArgLang(a) # NONE THEN ArgLang(a)
    ELSE IF D[loc].lang # "" THEN D[loc].lang ELSE "ru"
Defaults(l) == IF Alias(l) \in CONFIGURED THEN Alias(l) ELSE "ru"
Estimator(D, loc, a) ==
    CASE a.est = "auto" -> IF D[loc].prob THEN "table" ELSE "off"
      [] a.est = "none" -> "off"
      [] a.est = "table" -> IF D[loc].prob THEN "table" ELSE "fails"
      [] OTHER -> a.est
(* the warnings, as a set *)
Warnings(D, loc, a) ==
    LET l == Language(D, loc, a) IN
      (IF ArgLang(a) = NONE /\ D[loc].lang = "" THEN {"undeclared"} ELSE {})
      \cup (IF ArgLang(a) # NONE /\ ArgLang(a) # D[loc].lang THEN {"mismatch"} ELSE {})
      \cup (IF Alias(l) \notin CONFIGURED /\ (a.units = NONE \/ a.subst = "auto") THEN {"unknown"} ELSE {})
FAILED(e) == [exc |-> e, dict |-> NONE, lang |-> NONE, units |-> NONE, subst |-> NONE, est |-> NONE, rt |-> NONE, warns |-> {}]
Outcome(D, inst, env, a) ==
    LET loc == Location(inst, env, a) IN
    IF loc = NONE THEN FAILED("ValueError")
    ELSE IF ~D[loc].ok \/ Estimator(D, loc, a) = "fails" THEN FAILED("*")
    ELSE LET l == Language(D, loc, a) IN
         [exc |-> "", dict |-> loc, lang |-> l,
          units |-> IF a.units = NONE THEN Defaults(l) ELSE a.units,
          subst |-> IF a.subst = "auto" THEN Defaults(l) ELSE a.subst,
          est |-> Estimator(D, loc, a), rt |-> a.rt,
          warns |-> Warnings(D, loc, a)]
(* the location of the dictionary of a language *)
Find(inst, l) == IF l \in DOMAIN inst THEN inst[l] ELSE NONE
=============================================================================
