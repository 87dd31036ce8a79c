SPECIFICATION Spec
CONSTANTS MaxOps = 11
 MaxKill = 2
INVARIANTS Once All OnePlace Chain Current
PROPERTIES Restored
CHECK_DEADLOCK FALSE
