CONSTANTS
 Handles = {"1"}
SPECIFICATION Spec
VIEW View1
PROPERTIES Asking Same
ACTION_CONSTRAINT Emit
