------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life cycle of archives and units.  An archive is closed, open for   *)
(* reading (what is still to be read) or open for writing (what has been   *)
(* written); a unit does not exist, is new, is being written, or has       *)
(* content.  Contents are named by their source text.  The result of every *)
(* operation is its status and what is seen of every unit afterwards, so   *)
(* that a refused operation is seen to change nothing; the result of a     *)
(* close is the list of the units in the document that was written.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == "-"
Arch == {"a", "b"}
Slots == {"u", "v"}
Docs == [two |-> <<"r;", "s;">>, one |-> <<"t;">>]

Closed == [ph |-> "closed", rest |-> <<>>, out |-> <<>>, sol |-> FALSE]
NoUnit == [ph |-> "none", own |-> None, txt |-> None, bld |-> None]
New(h) == [ph |-> "new", own |-> h, txt |-> None, bld |-> None]
Fresh == [ar |-> [h \in Arch |-> Closed], un |-> [u \in Slots |-> NoUnit]]

\* what is seen of the units: the text of their content
Seen(s) == [u \in Slots |-> IF s.un[u].ph = "done" THEN s.un[u].txt ELSE None]
Reply(s, x) == {[s |-> s, r |-> [st |-> x, seen |-> Seen(s)]]}

InvArg == "INVALID_ARGUMENT"
InvIO == "INVALID_IO"
SetA(s, h, x) == [s EXCEPT !.ar = [@ EXCEPT ![h] = x]]
SetU(s, u, x) == [s EXCEPT !.un = [@ EXCEPT ![u] = x]]

\* the form of the document that was read last is the form in which the archive writes
WOpen(s, h) == IF s.ar[h].ph # "closed" THEN Reply(s, InvIO)
               ELSE Reply(SetA(s, h, [s.ar[h] EXCEPT !.ph = "write", !.out = <<>>]), "OK")
ROpen(s, h, d) == IF s.ar[h].ph # "closed" THEN Reply(s, InvIO)
                  ELSE Reply(SetA(s, h, [s.ar[h] EXCEPT !.ph = "read", !.rest = Docs[d], !.sol = (d = "one")]), "OK")
\* from or to what does not exist
OpenFail(s, h) == Reply(s, IF s.ar[h].ph # "closed" THEN InvIO ELSE "IO_ERROR")
Close(s, h) ==
    LET t == SetA(s, h, [Closed EXCEPT !.sol = s.ar[h].sol])
    IN {[s |-> t, r |-> [st |-> "closed", seen |-> Seen(t), doc |-> IF s.ar[h].ph = "write" THEN s.ar[h].out ELSE <<None>>]]}
\* the setting is read when the first unit is written, so changing it after the open is left open
Solitary(s, h, on) == IF s.ar[h].ph = "write" THEN {} ELSE Reply(SetA(s, h, [s.ar[h] EXCEPT !.sol = on]), "OK")

Write(s, h, u) ==
    IF s.un[u].ph = "none" THEN Reply(s, InvArg)
    ELSE IF s.un[u].ph # "done" THEN Reply(s, "UNINITIALIZED_UNIT")
    ELSE IF s.ar[h].ph # "write" THEN Reply(s, InvIO)
    ELSE IF s.ar[h].sol /\ Len(s.ar[h].out) > 0 THEN Reply(s, InvIO)
    ELSE Reply(SetA(s, h, [s.ar[h] EXCEPT !.out = Append(@, s.un[u].txt)]), "OK")
\* refused when not writing; what it does otherwise is for the caller to know
WString(s, h) == IF s.ar[h].ph = "write" THEN {} ELSE Reply(s, InvIO)

Read(s, h, u) ==
    IF s.ar[h].ph # "read" \/ s.ar[h].rest = <<>> THEN Reply(s, "NULL")
    ELSE Reply(SetU(SetA(s, h, [s.ar[h] EXCEPT !.rest = Tail(@)]), u,
                    [ph |-> "done", own |-> h, txt |-> Head(s.ar[h].rest), bld |-> None]), "unit")
Skip(s, h) == IF s.ar[h].ph # "read" \/ s.ar[h].rest = <<>> THEN Reply(s, "0")
              ELSE Reply(SetA(s, h, [s.ar[h] EXCEPT !.rest = Tail(@)]), "1")

Create(s, u, h) == Reply(SetU(s, u, New(h)), "unit")
CloneU(s, u, w) == IF s.un[u].ph = "none" THEN Reply(s, "NULL") ELSE Reply(SetU(s, w, New(s.un[u].own)), "unit")
Free(s, u) == Reply(SetU(s, u, NoUnit), "freed")
Has(s, u) == s.un[u].ph # "none"
Parse(s, u, x) == IF ~Has(s, u) THEN Reply(s, InvArg)
                  ELSE Reply(SetU(s, u, [s.un[u] EXCEPT !.ph = "done", !.txt = x, !.bld = None]), "OK")
ParseFail(s, u) == Reply(s, IF ~Has(s, u) THEN InvArg ELSE "IO_ERROR")
ParseNoLang(s, u) == Reply(s, IF ~Has(s, u) THEN InvArg ELSE "UNSET_LANGUAGE")
WStart(s, u) == IF ~Has(s, u) THEN Reply(s, InvArg)
                ELSE Reply(SetU(s, u, [s.un[u] EXCEPT !.ph = "build", !.txt = None, !.bld = ""]), "OK")
WText(s, u, x) == IF ~Has(s, u) THEN Reply(s, InvArg)
                  ELSE IF s.un[u].ph # "build" THEN Reply(s, "INVALID_INPUT")
                  ELSE Reply(SetU(s, u, [s.un[u] EXCEPT !.bld = @ \o x]), "OK")
WEnd(s, u) == IF ~Has(s, u) THEN Reply(s, InvArg)
              ELSE IF s.un[u].ph # "build" THEN Reply(s, "INVALID_INPUT")
              ELSE Reply(SetU(s, u, [s.un[u] EXCEPT !.ph = "done", !.txt = s.un[u].bld, !.bld = None]), "OK")
\* outside of a unit being written none of these applies
WOther(s, u, o) == IF ~Has(s, u) THEN Reply(s, InvArg) ELSE IF s.un[u].ph = "build" THEN {} ELSE Reply(s, "INVALID_INPUT")
Unparse(s, u) ==
    IF ~Has(s, u) THEN Reply(s, InvArg)
    ELSE IF s.ar[s.un[u].own].ph # "read" THEN Reply(s, InvIO)
    ELSE IF s.un[u].ph # "done" THEN Reply(s, "UNINITIALIZED_UNIT")
    ELSE Reply(s, "OK " \o s.un[u].txt)
\* no transformations were given: nothing to do
Apply(s, h, u) == IF ~Has(s, u) THEN Reply(s, InvArg) ELSE Reply(s, "OK")

(***************************************************************************)
(* Calls with a missing handle or argument.  Kind of function -> answer.   *)
(***************************************************************************)
Answer == [status |-> InvArg, handle |-> "NULL", string |-> "NULL", size |-> "0", none |-> "none"]
Missing(s, kind) == Reply(s, Answer[kind])

LResults(s, e) ==
    CASE e.op = "wopen" -> WOpen(s, e.h)
      [] e.op = "ropen" -> ROpen(s, e.h, e.d)
      [] e.op = "openfail" -> OpenFail(s, e.h)
      [] e.op = "close" -> Close(s, e.h)
      [] e.op = "solitary" -> Solitary(s, e.h, e.on)
      [] e.op = "write" -> Write(s, e.h, e.u)
      [] e.op = "wstring" -> WString(s, e.h)
      [] e.op = "read" -> Read(s, e.h, e.u)
      [] e.op = "skip" -> Skip(s, e.h)
      [] e.op = "create" -> Create(s, e.u, e.h)
      [] e.op = "cloneu" -> CloneU(s, e.u, e.w)
      [] e.op = "free" -> Free(s, e.u)
      [] e.op = "parse" -> Parse(s, e.u, e.x)
      [] e.op = "parsefail" -> ParseFail(s, e.u)
      [] e.op = "parsenolang" -> ParseNoLang(s, e.u)
      [] e.op = "wstart" -> WStart(s, e.u)
      [] e.op = "wtext" -> WText(s, e.u, e.x)
      [] e.op = "wend" -> WEnd(s, e.u)
      [] e.op = "wother" -> WOther(s, e.u, e.o)
      [] e.op = "unparse" -> Unparse(s, e.u)
      [] e.op = "apply" -> Apply(s, e.h, e.u)
      [] e.op = "missing" -> Missing(s, e.kind)
      [] OTHER -> {}
=============================================================================
