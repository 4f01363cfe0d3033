---------------------------- MODULE ClientTrace -----------------------------
EXTENDS Client
VARIABLES tid, l, S, ok
\* the tables go with the state; what is unspecified is as observed, and files are in no order
Start(cfg) == {[t |-> cfg, d |-> Fresh]}
Fit(c, r) == IF "any" \in DOMAIN c THEN r
             ELSE IF "doc" \in DOMAIN c THEN
                (IF c.doc.form = "any" THEN [c EXCEPT !.doc = r.doc]
                 ELSE IF c.doc.form = "files" /\ r.doc.form = "files" THEN
                    (IF ToSet(r.doc.files) = c.doc.files /\ Len(r.doc.files) = Cardinality(c.doc.files) THEN [c EXCEPT !.doc = r.doc] ELSE [c EXCEPT !.doc.files = SetToSeq(@)])
                 ELSE c)
             ELSE c
FitDir(c, e) == IF e.op = "extract" /\ e.how \in {"dir", "here"} /\ "out" \in DOMAIN c THEN
                   (IF ToSet(e.r.out) = c.out /\ Len(e.r.out) = Cardinality(c.out) THEN [c EXCEPT !.out = e.r.out] ELSE [c EXCEPT !.out = SetToSeq(@)])
                ELSE Fit(c, e.r)
XResults(st, e) == {[s |-> [st EXCEPT !.d = o.s], r |-> FitDir(o.r, e)] : o \in CResults(st.t, st.d, e)}
INSTANCE TraceCheck WITH Results <- XResults
=============================================================================
