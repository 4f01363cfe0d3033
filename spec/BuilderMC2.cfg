SPECIFICATION Spec
CONSTANT MaxDepth = 6
CONSTRAINT Bound
VIEW View
INVARIANT Balanced
PROPERTY Monotone
ACTION_CONSTRAINT Emit
