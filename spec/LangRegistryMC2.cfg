SPECIFICATION Spec
CONSTANT MaxReg = 2
VIEW View
CONSTRAINT Bound
INVARIANT Inv
PROPERTY Isolated
CHECK_DEADLOCK FALSE
