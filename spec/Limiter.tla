------------------------------ MODULE Limiter -------------------------------
(***************************************************************************)
(* What the client's limit of open inputs owes to the threads that use it:  *)
(* never more than max places are held; who wants a place gets it when one  *)
(* is free (seen when nothing else can happen); in the end all are free.    *)
(* "gave" is recorded before the place is given back and "got" after it was *)
(* taken, so that held never exceeds what is really held.                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
Fresh == [held |-> 0, max |-> 0, want |-> {}]
LResults(st, e) ==
    CASE e.op = "held"  -> {[s |-> [st EXCEPT !.held = e.n, !.max = e.max], r |-> "-"]}
      [] e.op = "want"  -> IF e.t \in st.want THEN {} ELSE {[s |-> [st EXCEPT !.want = @ \cup {e.t}], r |-> "-"]}
      [] e.op = "got"   -> IF e.t \notin st.want \/ st.held >= st.max THEN {}
                           ELSE {[s |-> [st EXCEPT !.want = @ \ {e.t}, !.held = @ + 1], r |-> "-"]}
      [] e.op = "gave"  -> IF st.held = 0 THEN {} ELSE {[s |-> [st EXCEPT !.held = @ - 1], r |-> "-"]}
      [] e.op = "quiet" -> IF st.want # {} /\ st.held < st.max THEN {} ELSE {[s |-> st, r |-> "-"]}
      [] e.op = "end"   -> IF st.want # {} \/ st.held # e.n THEN {} ELSE {[s |-> [st EXCEPT !.held = 0], r |-> "-"]}
      [] e.op = "places" -> IF st.held # 0 THEN {} ELSE {[s |-> st, r |-> 0]}      \* as many as max, and no more
      [] OTHER -> {}
=============================================================================
