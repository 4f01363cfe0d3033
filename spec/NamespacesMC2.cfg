SPECIFICATION Spec
CONSTANT MaxDepth = 6
VIEW View1
CONSTRAINT Bound
INVARIANT Consistent
INVARIANT Documents
PROPERTY Last
CHECK_DEADLOCK FALSE
