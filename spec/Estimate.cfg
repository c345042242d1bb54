CONSTANTS
 TableFirst = TRUE
SPECIFICATION Spec
INVARIANTS Committed KeepsWorking
PROPERTY Forward
CHECK_DEADLOCK FALSE
