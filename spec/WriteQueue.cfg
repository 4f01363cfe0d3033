CONSTANTS
 N = 3
 D = TRUE
 W = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Refines Symmetric
PROPERTY Stops
