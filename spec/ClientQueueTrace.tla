-------------------------- MODULE ClientQueueTrace --------------------------
EXTENDS ClientQueue
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck WITH Results <- QResults
=============================================================================
