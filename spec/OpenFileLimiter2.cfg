CONSTANTS
 Threads = 4
 Max = 3
 Depth = 1
 Rounds = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Refines Bounded AllFree
PROPERTY Ends
