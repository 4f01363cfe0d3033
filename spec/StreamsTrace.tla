---------------------------- MODULE StreamsTrace ----------------------------
EXTENDS Streams
VARIABLES tid, l, S, ok
Start(cfg) == {Fresh}
\* C20 is about the streams only: what was written, and whether that is reported well, is left to C22
Put(r, e, f) == IF f \in DOMAIN r THEN [r EXCEPT ![f] = e.r[f]] ELSE r
Loose(o, e) == IF e.op \in {"read", "skip"} THEN {o}
               ELSE LET q == Put(Put(Put(o.r, e, "doc"), e, "src"), e, "res")
                    IN {[o EXCEPT !.r = IF e.op \in {"write", "raw", "wclose", "convert", "unparse"} THEN Put(q, e, "st") ELSE q]}
TResults(s, e) == IF "loose" \in DOMAIN e THEN UNION {Loose(o, e) : o \in XResults(s, e)} ELSE XResults(s, e)
INSTANCE TraceCheck WITH Results <- TResults
=============================================================================
