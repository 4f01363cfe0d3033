CONSTANTS
 Docs = {"empty", "one", "two", "part", "cut", "nothing", "part1"}
 Archives = {0}
SPECIFICATION Spec
VIEW View1
INVARIANT TypeOK
PROPERTIES EndIsEnd Ordered
ACTION_CONSTRAINT Emit
