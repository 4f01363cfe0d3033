------------------------------ MODULE Streams -------------------------------
(***************************************************************************)
(* Sources and destinations that fail, and what is left of them.           *)
(*                                                                         *)
(* One archive w is written, one archive r is read, unit u (of w) is        *)
(* parsed from source, unit k is read from r.  Every stream is a file, a    *)
(* FILE, a descriptor, callbacks or memory, and may be unusable: it cannot  *)
(* be opened, or fails when first used, or fails later.  The result of a    *)
(* call is its status, what the caller finds of its own stream afterwards   *)
(* (still open / times closed), and for a finished output its value.        *)
(*                                                                         *)
(* C22: an operation that did not do what was asked never says OK, one that *)
(* says OK did all of it, and failures leave the archive being written and  *)
(* the unit as they were.  C20: what the library opened is closed once,     *)
(* what the caller opened is left open, and nothing remains at the end.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == "-"
Hows == {"memory", "file", "FILE", "fd", "io"}

\* inputs by how they are given; the usable ones are the others
BadIn == [memory |-> {}, file |-> {"missing", "dir"}, FILE |-> {"dir", "wronly", "fail1"}, fd |-> {"dir", "wronly", "badfd", "fail1"}, io |-> {"fail0", "fail1"}]
BadOut == [memory |-> {}, file |-> {"missing", "dir", "full", "tight"}, FILE |-> {"full", "rdonly", "tight"}, fd |-> {"full", "badfd", "rdonly", "tight"}, io |-> {"fail0", "fail1"}]
\* there is room for some of it, which may be enough
Tight == {"tight", "fail1"}
\* those which are found out when the destination is opened
NoOpen == {"missing", "dir"}

Sources == {"s1", "s2", "s0", "big"}            \* s0: no source at all; big: more than any buffer
UnitsOf == [good |-> <<"t1", "t2", "big">>, cut |-> <<"t1", "t2">>, one |-> <<"t1">>, empty |-> <<>>, garbage |-> <<>>, dir |-> <<>>, wronly |-> <<>>, badfd |-> <<>>,
            fail0 |-> <<>>, fail1 |-> <<"t1", "t2">>]
\* a part of a unit follows: it is never delivered, but may be skipped
Partial == {"cut", "fail1"}

\* a unit in C whose source encoding there is not; no source is read or written with it
Unknown == "no such encoding"

Closed == [st |-> "closed"]
Fresh == [w |-> Closed, r |-> Closed, u |-> None, lang |-> "C", k |-> None]

\* what the caller finds of a stream that was used
Left(how) == CASE how \in {"FILE", "fd"} -> "still open" [] how = "io" -> "closed 1" [] OTHER -> None
Untouched(how) == CASE how \in {"FILE", "fd"} -> "still open" [] how = "io" -> "closed 0" [] OTHER -> None
R(s, st, after) == [s |-> s, r |-> [st |-> st, after |-> after]]
St(s, st) == [s |-> s, r |-> [st |-> st]]

Parse(st, e) ==
    IF st.lang = Unknown
    THEN {R(st, x, a) : x \in {"INVALID_ARGUMENT", "IO_ERROR"}, a \in {Untouched(e.how), Left(e.how)}}
    ELSE IF st.lang # "C" THEN (IF e.inp = "missing" THEN {R(st, x, Untouched(e.how)) : x \in {"UNSET_LANGUAGE", "IO_ERROR"}}
                      ELSE {R(st, "UNSET_LANGUAGE", Untouched(e.how))})
    ELSE IF e.inp \in BadIn[e.how] THEN {R(st, "IO_ERROR", Left(e.how))}
    ELSE {R([st EXCEPT !.u = e.inp], "OK", Left(e.how))}

WOpen(st, e) ==
    IF st.w.st # "closed" THEN {R(st, "INVALID_IO", Untouched(e.how))}
    ELSE IF e.dest \in NoOpen THEN {R(st, "IO_ERROR", None)}
    ELSE {R([st EXCEPT !.w = [st |-> "open", how |-> e.how, dest |-> e.dest, us |-> <<>>, kind |-> "new"]], "OK", Untouched(e.how))}

Broken(w) == w.dest \in BadOut[w.how]
Content(st, x) == IF x = "u" THEN st.u ELSE st.k
Write(st, e) ==
    LET c == Content(st, e.x) w == st.w IN
    IF c = None THEN {St(st, IF e.x = "k" THEN "INVALID_ARGUMENT" ELSE "UNINITIALIZED_UNIT")}
    ELSE IF w.st = "closed" THEN {St(st, "INVALID_IO")}
    ELSE LET good == [st EXCEPT !.w.us = Append(@, c), !.w.kind = "units"] IN
         IF w.kind = "raw" THEN {}       \* text and units do not mix
         ELSE IF w.st = "failed" THEN {St(st, "IO_ERROR")}
         ELSE IF ~Broken(w) THEN {St(good, "OK")}
         ELSE {St([st EXCEPT !.w.st = "failed", !.w.kind = "units"], "IO_ERROR")} \cup (IF c = "big" /\ w.dest \notin Tight THEN {} ELSE {St(good, "OK")})

\* text is written as it is
Raw(st, e) ==
    LET w == st.w IN
    IF w.st = "closed" THEN {St(st, "INVALID_IO")}
    ELSE IF w.kind = "units" THEN {}
    ELSE LET good == [st EXCEPT !.w.us = Append(@, e.x), !.w.kind = "raw"] IN
         IF w.st = "failed" THEN {St(st, "IO_ERROR")}
         ELSE IF ~Broken(w) THEN {St(good, "OK")}
         ELSE {St([st EXCEPT !.w.st = "failed", !.w.kind = "raw"], "IO_ERROR")} \cup (IF e.x = "big" /\ w.dest \notin Tight THEN {} ELSE {St(good, "OK")})

\* closing gives the archive: the units that were written, and nothing of the others, and says whether all of it is
\* where it was to be; freeing only lets go of it
WClose(st, close) ==
    LET w == st.w n == [st EXCEPT !.w = Closed, !.u = None] IN
    IF w.st = "closed" THEN {[s |-> n, r |-> [st |-> IF close THEN "OK" ELSE None, after |-> None, doc |-> None]]}
    ELSE {[s |-> n, r |-> [st |-> x, after |-> Left(w.how), doc |-> IF x = "OK" THEN w.us ELSE "any"]]
          : x \in IF ~close THEN {None} ELSE IF ~Broken(w) THEN {"OK"} ELSE IF w.dest \in Tight /\ w.st # "failed" THEN {"OK", "IO_ERROR"} ELSE {"IO_ERROR"}}

ROpen(st, e) ==
    IF st.r.st # "closed" THEN {R(st, "INVALID_IO", Untouched(e.how))}
    ELSE IF e.inp = "missing" THEN {R(st, "IO_ERROR", None)}
    ELSE {R([st EXCEPT !.r = [st |-> "open", how |-> e.how, us |-> UnitsOf[e.inp], part |-> e.inp \in Partial]], "OK", "later")}
Next1(st) == [st EXCEPT !.r.us = SubSeq(@, 2, Len(@))]
Read(st, e) ==
    IF st.r.st = "closed" \/ st.r.us = <<>> THEN {[s |-> [st EXCEPT !.k = None], r |-> None]}
    ELSE {[s |-> [Next1(st) EXCEPT !.k = st.r.us[1]], r |-> st.r.us[1]]}
Skip(st) == IF st.r.st = "closed" THEN {[s |-> st, r |-> 0]}
    ELSE IF st.r.us = <<>> THEN {[s |-> st, r |-> 0]} \cup (IF st.r.part THEN {[s |-> [st EXCEPT !.r.part = FALSE], r |-> 1]} ELSE {})
    ELSE {[s |-> Next1(st), r |-> 1]}
\* what is read can be used until its archive is closed
RClose(st) == {[s |-> [st EXCEPT !.r = Closed, !.k = None], r |-> [after |-> IF st.r.st = "closed" THEN None ELSE Left(st.r.how)]]}

Unparse(st, e) ==
    IF st.k = None THEN {}
    ELSE IF e.enc = Unknown
         THEN {[s |-> st, r |-> [st |-> x, after |-> a, src |-> None]] : x \in {"INVALID_ARGUMENT", "INVALID_IO", "IO_ERROR"}, a \in {Untouched(e.how), Left(e.how)}}
    ELSE IF e.dest \in NoOpen THEN {[s |-> st, r |-> [st |-> "IO_ERROR", after |-> None, src |-> None]]}
    ELSE LET bad == [s |-> st, r |-> [st |-> "IO_ERROR", after |-> Left(e.how), src |-> None]]
             good == [s |-> st, r |-> [st |-> "OK", after |-> Left(e.how), src |-> st.k]]
         IN IF e.dest \notin BadOut[e.how] THEN {good} ELSE IF e.dest \in Tight THEN {good, bad} ELSE {bad}

\* the conversion in one call, from and to files
Convert(st, e) ==
    LET good == IF e.inp \in {"c", "xml"} THEN {[s |-> st, r |-> [st |-> "OK", res |-> IF e.inp = "c" THEN <<"s1">> ELSE <<"t1">>]]} ELSE {}
        bad == {[s |-> st, r |-> [st |-> "error", res |-> None]]}
    IN IF e.dest \in Tight THEN good \cup bad ELSE IF e.dest = "good" /\ good # {} THEN good ELSE bad

XResults(st, e) ==
    CASE e.op = "unit" -> {St([st EXCEPT !.u = None, !.lang = e.lang], "OK")}
      [] e.op = "parse" -> Parse(st, e)
      [] e.op = "wopen" -> WOpen(st, e)
      [] e.op = "write" -> Write(st, e)
      [] e.op = "raw" -> Raw(st, e)
      [] e.op \in {"wclose", "wfree"} -> WClose(st, e.op = "wclose")
      [] e.op = "ropen" -> ROpen(st, e)
      [] e.op = "read" -> Read(st, e)
      [] e.op = "skip" -> Skip(st)
      [] e.op \in {"rclose", "rfree"} -> RClose(st)
      [] e.op = "unparse" -> Unparse(st, e)
      [] e.op = "convert" -> Convert(st, e)
      \* everything is closed and freed: nothing remains, and what the caller opened is still usable
      [] e.op = "end" -> {[s |-> Fresh, r |-> [fds |-> <<>>, threads |-> 0, lost |-> <<>>, closes |-> <<>>]]}
      [] OTHER -> {}
=============================================================================
