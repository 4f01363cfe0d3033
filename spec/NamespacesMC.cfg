SPECIFICATION Spec
CONSTANT MaxDepth = 4
VIEW View1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Consistent
INVARIANT Documents
PROPERTY Last
CHECK_DEADLOCK FALSE
