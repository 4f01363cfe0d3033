SPECIFICATION Spec
CONSTANT MaxDepth = 3
CONSTANT All = TRUE
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Inv
PROPERTY Only
PROPERTY Kept
PROPERTY Apart
PROPERTY NotLost
CHECK_DEADLOCK FALSE
