--------------------------- MODULE LifecycleTrace ---------------------------
EXTENDS Lifecycle
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck WITH Results <- LResults
=============================================================================
