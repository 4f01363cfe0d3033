CONSTANTS
 T = 2
 MaxParses = 4
 Bug = "shared"
SPECIFICATION Spec
INVARIANT OnlyItsInput
