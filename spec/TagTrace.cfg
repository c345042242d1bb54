SPECIFICATION Spec
INVARIANTS TablesInverse Invertible Report
CHECK_DEADLOCK FALSE
