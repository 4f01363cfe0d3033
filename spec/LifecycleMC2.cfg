SPECIFICATION Spec
CONSTANT MaxDepth = 8
CONSTRAINT Bound
CONSTRAINT Small
VIEW View
INVARIANT TypeOK
PROPERTY Harmless
PROPERTY Output
ACTION_CONSTRAINT Emit
