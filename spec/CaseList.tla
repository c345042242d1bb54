------------------------------ MODULE CaseList ------------------------------
(* Recorded executions.  In a module of its own, before its users, so that  *)
(* TLC reads the file once.                                                 *)
EXTENDS Text, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.VP_CASES)
=============================================================================
