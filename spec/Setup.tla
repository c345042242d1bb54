-------------------------------- MODULE Setup --------------------------------
(* Configurations and dictionary views of the run, as values of Core.tla.   *)
EXTENDS Core

UnitOf(j) ==
    CASE j.k \in {"kpref", "comp"} -> [j EXCEPT !.prefixes = ToSet(j.prefixes)]
      [] j.k \in {"fname", "patr"} -> [j EXCEPT !.letters = ToSet(j.letters)]
      [] OTHER -> j
Configs == TLCEval([n \in 1..Len(Ctx.configs) |->
              LET c == Ctx.configs[n]
              IN  [units |-> [m \in 1..Len(c.units) |-> UnitOf(c.units[m])],
                   pp |-> c.pp, maxsuf |-> c.maxsuf, subst |-> c.subst, useprob |-> c.useprob]])
Dicts == TLCEval(Ctx.dicts)
=============================================================================
