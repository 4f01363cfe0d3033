CONSTANTS
 MaxLen = 6
 MaxDepth = 3
SPECIFICATION Spec
VIEW View1
INVARIANTS NoTrace Belongs Ordered Nested Balanced Idempotent AsItIs Complete
ACTION_CONSTRAINT Emit
