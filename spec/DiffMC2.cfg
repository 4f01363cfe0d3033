CONSTANTS
 MaxLen = 8
 MaxDepth = 4
SPECIFICATION Spec
VIEW View1
INVARIANTS NoTrace Belongs Ordered Nested Balanced Idempotent AsItIs Complete
ACTION_CONSTRAINT Emit
