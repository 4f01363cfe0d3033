CONSTANTS
 T = 2
 MaxParses = 4
 Bug = "unguarded"
SPECIFICATION Spec
INVARIANT OnlyItsInput
