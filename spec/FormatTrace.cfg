SPECIFICATION Spec
INVARIANTS Reversible Report
CHECK_DEADLOCK FALSE
