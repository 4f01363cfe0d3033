CONSTANTS
 N = 3
 D = FALSE
 W = 2
 Bug = "stopsilent"
SPECIFICATION Spec
INVARIANTS Refines Symmetric
PROPERTY Stops
