SPECIFICATION Spec
CONSTANTS
 MaxLen = 6
 Alphabet = {"v", " ", "\\", "$", "$(v", ")", "'", "("}
INVARIANTS Plain Escaped SingleQuoted DoubleQuoted Unquoted Again WordsAgain NotSplit
CHECK_DEADLOCK FALSE
