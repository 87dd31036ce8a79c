SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Alphabet = {"a", "b", "\n", "\r"}
INVARIANTS Found SamePattern InOrder StrictIsNotWeaker NoChunks LinesAgain FilterNothing Stripped
CHECK_DEADLOCK FALSE
