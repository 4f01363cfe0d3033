SPECIFICATION Spec
CONSTANT Alphabet = {"a", "SP", "CR", "LF", "CTRL", "DEL", "<", "&", "QUOT", "SLASH", "STAR", "BSL", "HASH", "HIGH", "SEMI"}
CONSTANT MaxLen = 4
INVARIANT Inv
PROPERTY Monotone
CHECK_DEADLOCK FALSE
