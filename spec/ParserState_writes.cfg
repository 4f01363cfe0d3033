CONSTANTS
 T = 2
 MaxParses = 4
 Bug = "writes"
SPECIFICATION Spec
INVARIANT OnlyItsInput
