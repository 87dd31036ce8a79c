SPECIFICATION Spec
CONSTANTS
 MaxLen = 8
 Alphabet = {"v", " ", "\\", "$", "$(v", ")", "'", "("}
INVARIANTS Plain Escaped SingleQuoted DoubleQuoted Unquoted Again WordsAgain NotSplit
CHECK_DEADLOCK FALSE
