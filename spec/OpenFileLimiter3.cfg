CONSTANTS
 Threads = 3
 Max = 4
 Depth = 2
 Rounds = 2
 Bug = "none"
SPECIFICATION Spec
INVARIANTS Refines Bounded AllFree
PROPERTY Ends
