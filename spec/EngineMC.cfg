SPECIFICATION Spec
INVARIANTS Complete EndsClean NotStuck LocalsClean StacksClean HungFor
PROPERTY Ends
CHECK_DEADLOCK FALSE
