------------------------------- MODULE Digest -------------------------------
(***************************************************************************)
(* The hash and the line count of units.  An archive has hashing on or     *)
(* off; a unit carries the hash and line count of its last successful      *)
(* parse, whatever happened before; writing and reading back keeps both.   *)
(* A source is given by its digest (of the bytes) and the lengths of its   *)
(* lines (of the decoded text; the last is what follows the last break).   *)
(***************************************************************************)
EXTENDS Integers, Sequences
None == "-"
NoUnit == [hash |-> None, loc |-> -1, parsed |-> FALSE]
Fresh == [on |-> TRUE, unit |-> NoUnit, written |-> <<>>, after |-> NoUnit]
\* a last line that is not empty counts although it has no break
Loc(lines) == Len(lines) - (IF lines[Len(lines)] = 0 THEN 1 ELSE 0)
Show(u) == [hash |-> u.hash, loc |-> u.loc]
Parsed(st, e) == [hash |-> IF st.on THEN e.sha ELSE None, loc |-> Loc(e.lines), parsed |-> TRUE]
Results(st, e) ==
    CASE e.op = "hash" -> {[s |-> [st EXCEPT !.on = e.on], r |-> "OK"]}
      [] e.op = "unit" -> {[s |-> [st EXCEPT !.unit = NoUnit], r |-> Show(NoUnit)]}
      \* a clone has the hash, but no text of its own
      [] e.op = "clone" -> {[s |-> [st EXCEPT !.unit = [hash |-> st.unit.hash, loc |-> -1, parsed |-> FALSE]], r |-> [hash |-> st.unit.hash, loc |-> -1]]}
      [] e.op = "parse" -> {[s |-> [st EXCEPT !.unit = Parsed(st, e)], r |-> Show(Parsed(st, e))]}
      \* no language, or input that cannot be read
      [] e.op = "fail" -> {[s |-> st, r |-> Show(st.unit)]}
      [] e.op = "write" -> IF st.unit.parsed THEN {[s |-> [st EXCEPT !.written = Append(@, Show(st.unit))], r |-> "OK"]}
                           ELSE {[s |-> st, r |-> "UNINITIALIZED_UNIT"]}
      [] e.op = "read" -> {[s |-> [st EXCEPT !.written = <<>>], r |-> st.written]}
      [] OTHER -> {}
=============================================================================
