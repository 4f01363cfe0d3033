---------------------------- MODULE ClientQueue -----------------------------
(***************************************************************************)
(* What the client's queues owe to whoever uses them: inputs are scheduled  *)
(* one after another; each is reported exactly once, in that order, with    *)
(* what became of it; stopping returns when all have been, with the number  *)
(* of those that succeeded; the output has the units of these, in order.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Fresh == [in |-> <<>>, at |-> 0, stopped |-> FALSE]
\* of an input: o good, e one that could not be read, u of unknown language, l of a language that does not exist, m a missing file
Outcome(k) == CASE k = "o" -> "ok" [] k \in {"e", "m"} -> "fail" [] k \in {"u", "l"} -> "skip"
Good(st) == SelectSeq(st.in, LAMBDA x : Outcome(x.k) = "ok")
Names(q) == [i \in 1..Len(q) |-> q[i].n]

QResults(st, e) ==
    CASE e.op = "schedule" -> IF st.stopped THEN {} ELSE {[s |-> [st EXCEPT !.in = Append(@, [k |-> e.k, n |-> e.n])], r |-> "-"]}
      [] e.op = "wrote"    -> IF st.stopped \/ st.at = Len(st.in) THEN {}
                              ELSE {[s |-> [st EXCEPT !.at = @ + 1], r |-> [n |-> st.in[st.at + 1].n, what |-> Outcome(st.in[st.at + 1].k)]]}
      [] e.op = "stop"     -> IF st.stopped \/ st.at # Len(st.in) THEN {} ELSE {[s |-> [st EXCEPT !.stopped = TRUE], r |-> Len(Good(st))]}
      \* waiting returns when all that were scheduled until then have been reported
      [] e.op = "waited"   -> IF st.stopped \/ st.at # Len(st.in) THEN {} ELSE {[s |-> st, r |-> "-"]}
      [] e.op = "units"    -> IF st.stopped THEN {[s |-> st, r |-> Names(Good(st))]} ELSE {}
      [] e.op = "threads"  -> IF st.stopped THEN {[s |-> st, r |-> 0]} ELSE {}
      [] OTHER -> {}
=============================================================================
