CONSTANTS
 T = 2
 MaxParses = 4
 Bug = "none"
SPECIFICATION Spec
INVARIANT OnlyItsInput
PROPERTY Ends