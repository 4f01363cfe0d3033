---------------------------- MODULE LimiterTrace ----------------------------
EXTENDS Limiter
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck WITH Results <- LResults
=============================================================================
