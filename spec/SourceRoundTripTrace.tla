------------------------ MODULE SourceRoundTripTrace ------------------------
EXTENDS SourceRoundTrip
VARIABLES tid, l, S, ok
Start(cfg) == {NoText}
INSTANCE TraceCheck
=============================================================================
