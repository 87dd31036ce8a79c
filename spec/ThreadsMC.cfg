SPECIFICATION Spec
CONSTANTS Progs <- TheProgs
 Swi = TRUE
INVARIANTS Once Shutdowns InOrder Queued Asleep
PROPERTIES Returns EndsRun
CHECK_DEADLOCK FALSE
