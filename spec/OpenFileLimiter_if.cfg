CONSTANTS
 Threads = 3
 Max = 1
 Depth = 1
 Rounds = 2
 Bug = "if"
SPECIFICATION Spec
INVARIANTS Refines Bounded AllFree
PROPERTY Ends
