SPECIFICATION Spec
CONSTANT MaxSet = 1
CONSTANT MaxUnits = 2
CONSTANT Mode = "write"
VIEW View_
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Delivery
CHECK_DEADLOCK FALSE
