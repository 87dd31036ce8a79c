SPECIFICATION Spec
CONSTANT Max = 4
INVARIANTS Exact NowhereElse
CHECK_DEADLOCK FALSE
