----------------------------- MODULE QueryTrace -----------------------------
EXTENDS Query
VARIABLES tid, l, S, ok
Start(cfg) == {[t |-> cfg, d |-> NoDoc]}
\* attributes are listed in any order; the namespaces a result declares are as recorded (that they are enough is
\* decided by what is read there)
NormUs(us) == [i \in 1..Len(us) |-> Norm(us[i])]
Seen(r) == CASE "doc" \in DOMAIN r /\ "us" \in DOMAIN r.doc -> [r EXCEPT !.doc.us = NormUs(@)]
             [] "us" \in DOMAIN r -> [r EXCEPT !.us = NormUs(@)]
             [] "ev" \in DOMAIN r -> [r EXCEPT !.ev = Norm(@)]
             [] OTHER -> r
XResults(s, e) == {[x EXCEPT !.r = IF x.r = Seen(e.r) THEN e.r ELSE [expected |-> ToString(x.r)]] : x \in QResults(s, e)}
INSTANCE TraceCheck WITH Results <- XResults
=============================================================================
