SPECIFICATION Spec
CONSTANT MaxLen = 7
INVARIANT Agrees
INVARIANT Extents
CHECK_DEADLOCK FALSE
