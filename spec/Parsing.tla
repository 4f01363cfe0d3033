------------------------------ MODULE Parsing -------------------------------
(***************************************************************************)
(* What a parse may depend on: the text, the language, and the settings in  *)
(* force in its archive.  The history of a process is a sequence of changes *)
(* of settings, of parses (by any thread, into new units or units used      *)
(* before) and of other uses of the library; st.table gives the result each *)
(* combination had as the first thing done in a process of its own.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Archives == {"0", "1"}
Default == [opt |-> "0", tab |-> "8", ns |-> "-", enc |-> "UTF-8"]
Fresh == [arch |-> [a \in Archives |-> Default]]

Key(x, lang, set) == x \o "|" \o lang \o "|" \o set.opt \o "|" \o set.tab \o "|" \o set.ns \o "|" \o set.enc

Same(st, r) == {[s |-> st, r |-> r]}
PResults(st, e, result(_)) ==
    CASE e.op = "new"   -> {[s |-> [st EXCEPT !.arch[e.a] = Default], r |-> "-"]}
      [] e.op = "opt"   -> {[s |-> [st EXCEPT !.arch[e.a].opt = e.v], r |-> "OK"]}
      [] e.op = "tab"   -> {[s |-> [st EXCEPT !.arch[e.a].tab = e.v], r |-> "OK"]}
      [] e.op = "ns"    -> {[s |-> [st EXCEPT !.arch[e.a].ns = e.v], r |-> "OK"]}
      [] e.op = "enc"   -> {[s |-> [st EXCEPT !.arch[e.a].enc = e.v], r |-> "OK"]}
      \* how it was given, by which thread, and whether the unit was used before do not matter
      [] e.op = "parse" -> Same(st, result(Key(e.x, e.lang, st.arch[e.a])))
      \* all units parsed are written to the archive, in order: as if they had been parsed in that order
      [] e.op = "write" -> Same(st, result(e.k))
      \* a parse that fails, process-wide settings, the one-call interface, transformations, reading, extraction
      [] e.op = "other" -> Same(st, "-")
      [] OTHER -> {}
=============================================================================
