------------------------------ MODULE Reading -------------------------------
(***************************************************************************)
(* What a caller sees of archives that are read, whatever the input is      *)
(* (C05).  Every operation has a result: none may fail to return, so the    *)
(* specification says which results are possible.                           *)
(*                                                                         *)
(* A document d has the leading complete units d.us.  After them            *)
(*   d.tail = "end"    it is complete,                                      *)
(*   d.tail = "part"   it stops inside of a unit,                           *)
(*   d.tail = "cut"    it stops elsewhere, or something that is no srcML    *)
(*                     begins,                                              *)
(*   d.tail = "loose"  it was changed, and may or may not have further      *)
(*                     units of any kind.                                   *)
(* A unit that stops is never delivered; since skipping looks at its start  *)
(* only, it may count as skipped.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

None == "-"
ClosedA == [st |-> "closed", us |-> <<>>, tail |-> "end", unit |-> None]
Fresh == <<ClosedA, ClosedA>>

Open(st, e) ==
    LET a == e.a + 1 d == e.doc IN
    IF st[a].st # "closed" THEN {[s |-> st, r |-> "error"]}
    ELSE {[s |-> [st EXCEPT ![a] = [st |-> "open", us |-> d.us, tail |-> d.tail, unit |-> None]], r |-> "OK"]}
         \cup (IF d.us = <<>> /\ d.tail # "end" THEN {[s |-> [st EXCEPT ![a].unit = None], r |-> "error"]} ELSE {})

\* the results of taking the next unit: what was taken, and what is left
Take(x, any) ==
    IF x.st # "open" THEN {<<None, x>>}
    ELSE IF x.us # <<>> THEN {<<Head(x.us), [x EXCEPT !.us = Tail(@)]>>}
    ELSE {<<None, [x EXCEPT !.tail = "end"]>>} \cup (IF x.tail = "loose" THEN {<<u, x>> : u \in any} ELSE {})

Read(st, e) ==
    LET a == e.a + 1 IN
    {[s |-> [st EXCEPT ![a] = [t[2] EXCEPT !.unit = t[1]]], r |-> t[1]] : t \in Take(st[a], IF "r" \in DOMAIN e THEN {e.r} ELSE {})}

Skip(st, e) ==
    LET a == e.a + 1 IN
    {[s |-> [st EXCEPT ![a] = t[2]], r |-> IF t[1] = None THEN 0 ELSE 1] : t \in Take(st[a], {"?"})}
    \cup (IF st[a].st = "open" /\ st[a].us = <<>> /\ st[a].tail = "part" THEN {[s |-> [st EXCEPT ![a].tail = "cut"], r |-> 1]} ELSE {})

RResults(st, e) ==
    LET a == e.a + 1 IN
    CASE e.op = "open" -> Open(st, e)
      [] e.op = "read" -> Read(st, e)
      [] e.op = "skip" -> Skip(st, e)
      \* the unit that was read last is there until it is freed or its archive is closed
      [] e.op = "again" -> {[s |-> st, r |-> st[a].unit]}
      [] e.op = "free" -> {[s |-> [st EXCEPT ![a].unit = None], r |-> 0]}
      [] e.op \in {"close", "gone"} -> {[s |-> [st EXCEPT ![a] = ClosedA], r |-> 0]}
      [] OTHER -> {}
=============================================================================
