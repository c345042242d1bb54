CONSTANTS
 Data = {"a", "b", "c", "d", "e"}
 RemoveFirst = TRUE
SPECIFICATION Spec
INVARIANTS NeverWrong Committed
PROPERTY Forward
CHECK_DEADLOCK FALSE
