CONSTANTS
 MaxUnits = 2
 MaxOps = 6
 Locked = FALSE
SPECIFICATION Spec
INVARIANTS Refines SameUnit Exclusive Joined
PROPERTY Returns
