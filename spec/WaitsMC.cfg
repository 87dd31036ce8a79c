SPECIFICATION Spec
CONSTANTS
 Waiters = {"a", "b", "c", "d"}
 Patient = {"a", "b"}
 Adds = 3
 Needs <- NeedOf
INVARIANTS Truth NoneLeft
PROPERTY Released
CHECK_DEADLOCK FALSE
