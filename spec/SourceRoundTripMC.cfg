SPECIFICATION Spec
CONSTANT Alphabet = {"a", "SP", "CR", "LF", "CTRL", "DEL", "<", "&", "QUOT", "SLASH", "STAR", "BSL", "HASH", "HIGH", "SEMI"}
CONSTANT MaxLen = 3
INVARIANT Inv
PROPERTY Monotone
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
