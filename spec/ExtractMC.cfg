SPECIFICATION Spec
CONSTANT Dummy = 0
VIEW View1
ACTION_CONSTRAINT Emit
INVARIANT RoundTrip
INVARIANT Breaks
PROPERTY Pure
CHECK_DEADLOCK FALSE
