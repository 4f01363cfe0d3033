SPECIFICATION Spec
CONSTANT MaxDepth = 4
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT TypeOK
PROPERTY Isolated
CHECK_DEADLOCK FALSE
