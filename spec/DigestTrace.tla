----------------------------- MODULE DigestTrace -----------------------------
EXTENDS Digest
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
INSTANCE TraceCheck
=============================================================================
