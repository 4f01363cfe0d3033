CONSTANTS Pairs = {"-", "Java"}
SPECIFICATION Spec
VIEW View1
INVARIANT Back Inside Same
PROPERTY Complete
ACTION_CONSTRAINT Emit
