SPECIFICATION Spec
CONSTANTS MaxOps = 14
 MaxKill = 3
INVARIANTS Once All OnePlace Chain Current
PROPERTIES Restored
CHECK_DEADLOCK FALSE
