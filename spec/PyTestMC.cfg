SPECIFICATION Spec
INVARIANT OneEach
INVARIANT Phases
INVARIANT NeverStuck
PROPERTY Done
CHECK_DEADLOCK FALSE
INVARIANT Closed
