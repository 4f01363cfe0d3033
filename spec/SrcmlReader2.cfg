CONSTANTS
 MaxUnits = 3
 MaxOps = 12
 Locked = TRUE
SPECIFICATION Spec
INVARIANTS Refines SameUnit Exclusive Joined
PROPERTY Returns
