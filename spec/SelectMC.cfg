SPECIFICATION Spec
INVARIANTS PathWins EnvNext InstalledLast NoDictionary LangWins Independent Quiet
CHECK_DEADLOCK FALSE
