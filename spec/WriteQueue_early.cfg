CONSTANTS
 N = 3
 D = FALSE
 W = 2
 Bug = "early"
SPECIFICATION Spec
INVARIANTS Refines Symmetric
PROPERTY Stops
