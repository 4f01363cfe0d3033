CONSTANTS
 N = 4
 D = FALSE
 W = 3
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Refines Symmetric
PROPERTY Stops
