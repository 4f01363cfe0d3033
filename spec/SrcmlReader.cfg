CONSTANTS
 MaxUnits = 2
 MaxOps = 6
 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Refines SameUnit Exclusive Joined
PROPERTY Returns
