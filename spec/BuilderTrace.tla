---------------------------- MODULE BuilderTrace ----------------------------
EXTENDS Builder
VARIABLES tid, l, S, ok
Start(cfg) == {InitB(cfg.root)}
\* recorded attributes are listed, in whatever order; the specification has the set of them
AsSet(q) == {q[i] : i \in 1..Len(q)}
Norm(ev) == [i \in 1..Len(ev) |-> IF Len(ev[i]) = 4 THEN <<ev[i][1], ev[i][2], ev[i][3], AsSet(ev[i][4])>> ELSE ev[i]]
Same(r, o) == /\ DOMAIN r = DOMAIN o
              /\ \A k \in DOMAIN r : IF k \in {"full", "outer", "inner", "back"} THEN Norm(r[k]) = o[k] ELSE r[k] = o[k]
TResults(s, e) == LET R == BResults(s, e)
                  IN IF e.op # "end" THEN R ELSE {IF Same(e.r, x.r) THEN [x EXCEPT !.r = e.r] ELSE [x EXCEPT !.r = [expected |-> ToString(x.r)]] : x \in R}
INSTANCE TraceCheck WITH Results <- TResults
=============================================================================
