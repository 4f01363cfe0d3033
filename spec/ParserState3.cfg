CONSTANTS
 T = 3
 MaxParses = 5
 Bug = "none"
SPECIFICATION Spec
INVARIANT OnlyItsInput
PROPERTY Ends
