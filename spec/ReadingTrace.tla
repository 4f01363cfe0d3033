---------------------------- MODULE ReadingTrace ----------------------------
EXTENDS Reading
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck WITH Results <- RResults
=============================================================================
