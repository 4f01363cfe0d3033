CONSTANTS
 T = 2
 MaxParses = 4
 Bug = "leftover"
SPECIFICATION Spec
INVARIANT OnlyItsInput
