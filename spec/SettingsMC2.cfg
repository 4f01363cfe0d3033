SPECIFICATION Spec
CONSTANT MaxDepth = 6
VIEW View
CONSTRAINT Bound
INVARIANT TypeOK
PROPERTY Isolated
CHECK_DEADLOCK FALSE
