CONSTANTS
 Toks = {"a", "b", "c"}
 MaxLen = 6
 Sizes = {0, 1, 2, 3, 99}
SPECIFICATION Spec
INVARIANTS Bounded Sound Same
CHECK_DEADLOCK FALSE
