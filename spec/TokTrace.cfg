SPECIFICATION Spec
INVARIANTS Shape Lossless Report
CHECK_DEADLOCK FALSE
