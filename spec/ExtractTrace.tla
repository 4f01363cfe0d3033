---------------------------- MODULE ExtractTrace ----------------------------
EXTENDS Extract
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck WITH Results <- XResults
=============================================================================
