CONSTANTS
 Data = {"a", "b", "c"}
 RemoveFirst = FALSE
SPECIFICATION Spec
INVARIANTS NeverWrong
CHECK_DEADLOCK FALSE
