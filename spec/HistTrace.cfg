SPECIFICATION Spec
INVARIANT Report
CONSTANT NoOp = NoOp
CHECK_DEADLOCK FALSE
