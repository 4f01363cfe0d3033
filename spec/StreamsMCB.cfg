SPECIFICATION Spec
CONSTANTS
  Mode = "both"
  MaxUs = 2
VIEW View1
ACTION_CONSTRAINT Emit
PROPERTY Harmless
PROPERTY Accurate
CHECK_DEADLOCK FALSE
