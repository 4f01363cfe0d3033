--------------------------- MODULE NamespacesTrace ---------------------------
EXTENDS Namespaces
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck
=============================================================================
