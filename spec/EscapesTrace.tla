---------------------------- MODULE EscapesTrace ----------------------------
EXTENDS Escapes
VARIABLES tid, l, S, ok
Start(cfg) == {None}
INSTANCE TraceCheck WITH Results <- EResults
=============================================================================
