---------------------------- MODULE ParsingTrace ----------------------------
EXTENDS Parsing
VARIABLES tid, l, S, ok
Start(cfg) == {[arch |-> Fresh.arch, table |-> cfg.table]}
TResults(st, e) == LET t == st.table IN PResults(st, e, LAMBDA k : t[k])
INSTANCE TraceCheck WITH Results <- TResults
=============================================================================
