SPECIFICATION Spec
CONSTANTS
 MaxLen = 5
 Depth = 6
 Alphabet = {"1", "0", ".", "-", "e", "[", "]", ",", " ", "'", "on", "_", "x"}
 Leaves = {"true", "0", "FALSE", "1.0", "x", "on"}
INVARIANTS DeMorgan Complement Symmetric Folds IfElse TypeRight IntIsFloat AnyList EqualSelf
CHECK_DEADLOCK FALSE
