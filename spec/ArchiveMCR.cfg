SPECIFICATION Spec
CONSTANT MaxSet = 0
CONSTANT MaxUnits = 0
CONSTANT Mode = "read"
VIEW View_
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Delivery
CHECK_DEADLOCK FALSE
