SPECIFICATION Spec
CONSTANT MaxDepth = 6
CONSTRAINT Bound
CONSTRAINT Small
VIEW View
INVARIANT TypeOK
PROPERTY Harmless
PROPERTY Output
ACTION_CONSTRAINT Emit
