SPECIFICATION Spec
CONSTANT MaxDepth = 5
VIEW View1
CONSTRAINT Bound
ACTION_CONSTRAINT Emit
INVARIANT Own
PROPERTY Rule
PROPERTY Kept
CHECK_DEADLOCK FALSE
