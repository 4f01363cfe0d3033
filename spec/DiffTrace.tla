----------------------------- MODULE DiffTrace ------------------------------
EXTENDS Diff
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck WITH Results <- DResults
=============================================================================
