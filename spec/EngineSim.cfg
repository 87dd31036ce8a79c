SPECIFICATION Spec
INVARIANTS Complete EndsClean NotStuck LocalsClean StacksClean HungFor
CHECK_DEADLOCK FALSE
