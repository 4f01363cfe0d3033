----------------------------- MODULE DecodeTrace -----------------------------
EXTENDS Decode
VARIABLES tid, l, S, ok
Start(cfg) == {None}
INSTANCE TraceCheck
=============================================================================
