CONSTANTS
 MaxIn = 3
SPECIFICATION Spec
VIEW View1
ACTION_CONSTRAINT Emit1
