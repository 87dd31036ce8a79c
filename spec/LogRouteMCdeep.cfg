SPECIFICATION Spec
CONSTANT Max = 5
INVARIANTS Exact NowhereElse
CHECK_DEADLOCK FALSE
