---------------------------- MODULE OneCallTrace ----------------------------
EXTENDS OneCall
VARIABLES tid, l, S, ok
Start(cfg) == {Init1}
INSTANCE TraceCheck WITH Results <- XResults
=============================================================================
