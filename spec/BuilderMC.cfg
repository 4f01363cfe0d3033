SPECIFICATION Spec
CONSTANT MaxDepth = 5
CONSTRAINT Bound
VIEW View
INVARIANT Balanced
PROPERTY Monotone
ACTION_CONSTRAINT Emit
