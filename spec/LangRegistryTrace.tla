-------------------------- MODULE LangRegistryTrace --------------------------
EXTENDS LangRegistry
VARIABLES tid, l, S, ok
Start(cfg) == {InitReg({"a", "b", "g"})}
INSTANCE TraceCheck
=============================================================================
