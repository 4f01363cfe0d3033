SPECIFICATION Spec
CONSTANT MaxChars = 3
CONSTANT MaxCuts = 4
INVARIANT Chunkless
INVARIANT Prefix1
INVARIANT AllWhole
INVARIANT NoMark
CHECK_DEADLOCK FALSE
