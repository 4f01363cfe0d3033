SPECIFICATION Spec
CONSTANT MaxReg = 1
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Isolated
CHECK_DEADLOCK FALSE
