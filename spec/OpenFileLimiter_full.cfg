CONSTANTS
 Threads = 4
 Max = 2
 Depth = 1
 Rounds = 2
 Bug = "full"
SPECIFICATION Spec
INVARIANTS Refines Bounded AllFree
PROPERTY Ends
