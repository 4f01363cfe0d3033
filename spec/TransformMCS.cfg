SPECIFICATION Spec
CONSTANT MaxA = 2
CONSTANT MaxB = 2
CONSTANT Small = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Isolated
CHECK_DEADLOCK FALSE
