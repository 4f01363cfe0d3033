----------------------------- MODULE MarkupTrace -----------------------------
EXTENDS Markup
VARIABLES tid, l, S, ok
Start(cfg) == {"-"}
INSTANCE TraceCheck
=============================================================================
