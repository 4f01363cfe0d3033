SPECIFICATION Spec
CONSTANT MaxSet = 2
CONSTANT MaxUnits = 1
CONSTANT Mode = "write"
VIEW View_
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Delivery
CHECK_DEADLOCK FALSE
