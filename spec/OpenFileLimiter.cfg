CONSTANTS
 Threads = 3
 Max = 2
 Depth = 1
 Rounds = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Refines Bounded AllFree
PROPERTY Ends
