SPECIFICATION Spec
INVARIANTS OnlyIf AfterDown NotUnready
PROPERTY Reported
CHECK_DEADLOCK FALSE
