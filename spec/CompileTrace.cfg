SPECIFICATION Spec
INVARIANTS Conservation Nested RootFirst Unified Report
CHECK_DEADLOCK FALSE
