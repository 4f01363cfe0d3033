--------------------------- MODULE TransformTrace ---------------------------
EXTENDS Transform
VARIABLES tid, l, S, ok
Start(cfg) == {InitT(cfg.docs)}
\* recorded attributes are listed, in whatever order
Same(r, o) == /\ DOMAIN r = DOMAIN o
              /\ \A k \in DOMAIN r : CASE k = "unit" -> Norm(r[k]) = o[k]
                                       [] k = "units" -> Len(r[k]) = Len(o[k]) /\ \A i \in 1..Len(r[k]) : Norm(r[k][i]) = o[k][i]
                                       [] OTHER -> r[k] = o[k]
NResults(s, e) == LET R == TResults(s, e)
                  IN IF e.op \notin {"apply", "replace"} THEN R
                     ELSE {IF Same(e.r, x.r) THEN [x EXCEPT !.r = e.r] ELSE [x EXCEPT !.r = [expected |-> ToString(x.r)]] : x \in R}
INSTANCE TraceCheck WITH Results <- NResults
=============================================================================
