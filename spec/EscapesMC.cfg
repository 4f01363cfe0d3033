SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANT Bound
INVARIANT Bytes
INVARIANT Plain
INVARIANT All
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
