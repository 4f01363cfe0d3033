CONSTANTS
 MaxIn = 4
SPECIFICATION Spec
VIEW View1
ACTION_CONSTRAINT Emit1
