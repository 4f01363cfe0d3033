SPECIFICATION Spec
CONSTANT MaxDepth = 9
VIEW View1
CONSTRAINT Bound
INVARIANT Own
PROPERTY Rule
PROPERTY Kept
CHECK_DEADLOCK FALSE
