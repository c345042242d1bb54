SPECIFICATION Spec
INVARIANT Emit
CONSTANT NoOp = NoOp
CHECK_DEADLOCK FALSE
