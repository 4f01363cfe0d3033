CONSTANTS
 Handles = {"1", "2"}
SPECIFICATION Spec
VIEW View1
PROPERTIES Asking Same
ACTION_CONSTRAINT Emit
