CONSTANTS
 T = 2
 MaxParses = 4
 Bug = "latched"
SPECIFICATION Spec
INVARIANT OnlyItsInput
