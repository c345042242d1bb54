------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* The context of a run, written by the harness: the grammatical tag       *)
(* table, the paradigm table, dictionary views and language configurations.*)
(* Everything is read once; TLC caches these constant definitions because  *)
(* this module precedes the modules that use them.                         *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

Ctx   == JsonDeserialize(IOEnv.VP_CTX)
Cases == ndJsonDeserialize(IOEnv.VP_CASES)
Tags  == Ctx.tags
Paras == Ctx.paras
=============================================================================
