SPECIFICATION Spec
CONSTANT MaxA = 3
CONSTANT MaxB = 0
CONSTANT Small = FALSE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Isolated
CHECK_DEADLOCK FALSE
