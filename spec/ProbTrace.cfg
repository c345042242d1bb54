SPECIFICATION Spec
INVARIANTS Distribution Report
CHECK_DEADLOCK FALSE
