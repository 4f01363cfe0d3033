SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Agrees
INVARIANT Extents
CHECK_DEADLOCK FALSE
