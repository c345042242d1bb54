CONSTANTS
 TableFirst = FALSE
SPECIFICATION Spec
INVARIANTS KeepsWorking
CHECK_DEADLOCK FALSE
