CONSTANTS
 N = 3
 D = TRUE
 W = 2
 Bug = "waitsilent"
SPECIFICATION Spec
INVARIANTS Refines Symmetric
PROPERTY Stops
