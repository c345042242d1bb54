SPECIFICATION Spec
INVARIANTS DesignLexeme Report
CHECK_DEADLOCK FALSE
