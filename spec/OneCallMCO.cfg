SPECIFICATION Spec
CONSTANT Mode = "opts"
VIEW View1
ACTION_CONSTRAINT Emit
PROPERTY Persistent
INVARIANT Sane
CHECK_DEADLOCK FALSE
