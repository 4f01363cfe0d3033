SPECIFICATION Spec
CONSTANT MaxSet = 1
CONSTANT MaxUnits = 1
CONSTANT Mode = "forms"
VIEW View_
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Delivery
CHECK_DEADLOCK FALSE
