---------------------------- MODULE ArchiveTrace ----------------------------
EXTENDS Archive
VARIABLES tid, l, S, ok
\* sets are recorded as lists
Norm(x) == [f \in DOMAIN x |-> IF f \in {"attrs", "opts", "ns"} THEN ToSet(x[f]) ELSE x[f]]
NormR(x) == LET y == Norm(x) IN IF "units" \in DOMAIN x THEN [y EXCEPT !.units = [i \in 1..Len(@) |-> Norm(@[i])]] ELSE y
Start(cfg) == {InitA([d \in DOMAIN cfg.docs |-> NormR(cfg.docs[d])], ToSet(cfg.slots))}
NResults(s, e) == LET v == NormR(e.r)
                  IN {IF DOMAIN v = DOMAIN x.r /\ v = x.r THEN [x EXCEPT !.r = e.r] ELSE [x EXCEPT !.r = [expected |-> ToString(x.r)]] : x \in AResults(s, e)}
INSTANCE TraceCheck WITH Results <- NResults
=============================================================================
