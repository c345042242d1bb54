SPECIFICATION Spec
INVARIANTS CaseOnly Own Report
CHECK_DEADLOCK FALSE
