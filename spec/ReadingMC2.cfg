CONSTANTS
 Docs = {"one", "part"}
 Archives = {0, 1}
SPECIFICATION Spec
VIEW View1
INVARIANT TypeOK
PROPERTIES EndIsEnd Ordered
ACTION_CONSTRAINT Emit
