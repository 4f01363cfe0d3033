CONSTANTS
 Threads = 3
 Max = 2
 Depth = 1
 Rounds = 1
 Bug = "silent"
SPECIFICATION Spec
INVARIANTS Refines Bounded AllFree
PROPERTY Ends
