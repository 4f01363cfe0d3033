SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT Bound
INVARIANT Bytes
INVARIANT Plain
INVARIANT All
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
