SPECIFICATION Spec
CONSTANT MaxChars = 2
CONSTANT MaxCuts = 2
INVARIANT Chunkless
INVARIANT Prefix1
INVARIANT AllWhole
INVARIANT NoMark
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
