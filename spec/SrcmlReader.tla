---------------------------- MODULE SrcmlReader -----------------------------
(***************************************************************************)
(* The two threads behind an archive that is read: the caller, and the      *)
(* thread that parses the document and stops at the places the caller asks  *)
(* for.  They hand control to each other with one mutex and one condition   *)
(* (srcml_reader_handler.hpp, srcml_sax2_reader.cpp).  Every access to what *)
(* they share is a step of its own; waiting may end by itself (spurious).   *)
(*                                                                         *)
(* Checked: every operation returns (also when the parser is in the middle  *)
(* of the document and the archive is closed), the parser touches the unit  *)
(* of the caller only while the caller waits for it, the thread is gone     *)
(* after closing, and the results are those of Reading.tla (refinement).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS MaxUnits, MaxOps,
          Locked          \* FALSE: a caller that resumes the parser without the mutex (to see that the properties can fail)

R == INSTANCE Reading

\* the document as the parser reports it
Docs == {[n |-> n, tail |-> t, root |-> TRUE] : n \in 0..MaxUnits, t \in {"end", "part", "cut"}} \cup {[n |-> 0, tail |-> "cut", root |-> FALSE]}
Name(n) == "u" \o ToString(n)
Units(d) == [i \in 1..d.n |-> Name(i)]
Events(d) == [i \in 1..(2 * d.n) |-> IF i % 2 = 1 THEN [k |-> "start", u |-> (i + 1) \div 2] ELSE [k |-> "end", u |-> i \div 2]]
             \o (IF d.tail = "part" THEN <<[k |-> "start", u |-> d.n + 1]>> ELSE <<>>)
             \o (IF d.tail = "end" THEN <<[k |-> "root", u |-> 0]>> ELSE <<>>)

VARIABLES doc,
    \* shared
    mutex, waiting, paused, isdone, terminate, colh, colb, unit,
    \* the parser
    ppc, ev, readroot, stopped,
    \* the caller: where it is, the operation, what came back, and the unit it has
    cpc, op, hdr, head, body, nops,
    \* what Reading.tla allows
    abs

shared == <<mutex, waiting, paused, isdone, terminate, colh, colb, unit>>
parser == <<ppc, ev, readroot, stopped>>
caller == <<cpc, op, hdr, head, body, nops>>
vars == <<doc, shared, parser, caller, abs>>

C == "caller"
P == "parser"
Free == mutex = "-"
NotifyP == waiting' = waiting \ {P}         \* one waits at most, whom the other wakes
NotifyC == waiting' = waiting \ {C}

Init == /\ doc \in Docs
        /\ mutex = "-" /\ waiting = {} /\ paused = FALSE /\ isdone = FALSE /\ terminate = FALSE
        /\ colh = FALSE /\ colb = FALSE /\ unit = "-"
        /\ ppc = "none" /\ ev = 1 /\ readroot = FALSE /\ stopped = FALSE
        /\ cpc = "idle" /\ op = "-" /\ hdr = FALSE /\ head = 0 /\ body = 0 /\ nops = 0
        /\ abs = {R!Fresh}

Same(v) == UNCHANGED v

---------------------------------------------------------------------------
(* the parser *)

PUnit == <<doc, caller, abs>>
E == Events(doc)[ev]

PNext == ppc = "next" /\ (IF ev > Len(Events(doc)) \/ stopped THEN ppc' = "done" /\ Same(<<ev>>)
                          ELSE /\ ppc' = (CASE E.k = "start" -> IF readroot THEN "attrs" ELSE "first" [] E.k = "end" -> "body" [] OTHER -> "root")
                               /\ Same(<<ev>>))
         /\ Same(<<PUnit, shared, readroot, stopped>>)

\* before the first unit: nobody has asked for anything yet
PLock(from, to) == /\ ppc = from /\ Free /\ mutex' = P /\ ppc' = to
                   /\ IF terminate THEN isdone' = TRUE /\ stopped' = TRUE ELSE Same(<<isdone, stopped>>)
                   /\ Same(<<PUnit, waiting, paused, terminate, colh, colb, unit, ev, readroot>>)
PPause(from, to) == /\ ppc = from /\ mutex = P /\ paused' = TRUE /\ NotifyC /\ ppc' = to
                    /\ Same(<<PUnit, mutex, isdone, terminate, colh, colb, unit, ev, readroot, stopped>>)
\* the wait: tests; goes to sleep, which gives up the mutex; wakes, and takes the mutex again
PWait(from, to) == /\ mutex = P
                   /\ \/ ppc = from /\ ppc' = (IF ~paused \/ terminate THEN to ELSE from \o "-tested") /\ Same(<<mutex, waiting>>)
                      \/ ppc = from \o "-tested" /\ ppc' = from \o "-asleep" /\ mutex' = "-" /\ waiting' = waiting \cup {P}
                   /\ Same(<<PUnit, paused, isdone, terminate, colh, colb, unit, ev, readroot, stopped>>)
PWake(from) == /\ ppc = from \o "-asleep" /\ P \notin waiting /\ Free /\ mutex' = P /\ ppc' = from
               /\ Same(<<PUnit, waiting, paused, isdone, terminate, colh, colb, unit, ev, readroot, stopped>>)
PUnlock(from, to) == /\ ppc = from /\ mutex = P /\ mutex' = "-" /\ ppc' = to
                     /\ Same(<<PUnit, waiting, paused, isdone, terminate, colh, colb, unit, ev, readroot, stopped>>)

PFirst == PLock("first", "first-pause") \/ PPause("first-pause", "first-wait") \/ PWait("first-wait", "first-out") \/ PWake("first-wait")
          \/ PUnlock("first-out", "first-test")
PFirstTest == /\ ppc = "first-test" /\ readroot' = TRUE
              /\ IF terminate THEN isdone' = TRUE /\ stopped' = TRUE /\ ppc' = "next" ELSE ppc' = "attrs" /\ Same(<<isdone, stopped>>)
              /\ Same(<<PUnit, mutex, waiting, paused, terminate, colh, colb, unit, ev>>)
\* the attributes go into the unit of the caller, if it has one
PAttrs == ppc = "attrs" /\ ppc' = (IF colh THEN "head" ELSE "started") /\ Same(<<PUnit, shared, ev, readroot, stopped>>)
PHead == PLock("head", "head-pause") \/ PPause("head-pause", "head-wait") \/ PWait("head-wait", "head-out") \/ PWake("head-wait") \/ PUnlock("head-out", "started")
PStarted == /\ ppc = "started" /\ ppc' = "next" /\ ev' = ev + 1
            /\ (IF terminate THEN isdone' = TRUE /\ stopped' = TRUE ELSE Same(<<isdone, stopped>>))
            /\ Same(<<PUnit, mutex, waiting, paused, terminate, colh, colb, unit, readroot>>)
PBody == ppc = "body" /\ ppc' = (IF colb THEN "tail" ELSE "started") /\ Same(<<PUnit, shared, ev, readroot, stopped>>)
PTail == PLock("tail", "tail-pause") \/ PPause("tail-pause", "tail-wait") \/ PWait("tail-wait", "tail-out") \/ PWake("tail-wait") \/ PUnlock("tail-out", "started")
PDone(from, to) == /\ ppc = from /\ Free /\ isdone' = TRUE /\ NotifyC /\ ppc' = to
                   /\ ev' = ev + 1
                   /\ Same(<<PUnit, mutex, paused, terminate, colh, colb, unit, readroot, stopped>>)

Parser == PNext \/ PFirst \/ PFirstTest \/ PAttrs \/ PHead \/ PStarted \/ PBody \/ PTail \/ PDone("root", "next") \/ PDone("done", "ended")

---------------------------------------------------------------------------
(* the caller *)

CUnit == <<doc, parser, abs>>
Begin(o) == /\ cpc = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ op' = o
\* the result of the operation is one that Reading.tla allows
Return(e, res) == /\ abs' = UNION {{x.s : x \in {y \in R!RResults(a, e @@ [r |-> res, a |-> 0]) : y.r = res}} : a \in abs}
                  /\ cpc' = "idle" /\ op' = "-"

COpen == /\ Begin("open") /\ ppc = "none" /\ cpc' = "open-wait" /\ ppc' = (IF doc.root THEN "next" ELSE "done")
         /\ ev' = 1 /\ readroot' = FALSE /\ stopped' = FALSE
         /\ paused' = FALSE /\ isdone' = FALSE /\ terminate' = FALSE /\ colh' = FALSE /\ colb' = FALSE /\ unit' = "-"
         /\ Same(<<doc, mutex, waiting, hdr, head, body, abs>>)
CLockW(from, to) == /\ cpc = from /\ Free /\ mutex' = C /\ cpc' = to
                    /\ Same(<<CUnit, waiting, paused, isdone, terminate, colh, colb, unit, op, hdr, head, body, nops>>)
CWait(from, to) == /\ mutex = C
                   /\ \/ cpc = from /\ (IF paused \/ isdone THEN cpc' = to /\ mutex' = "-" ELSE cpc' = from \o "-tested" /\ Same(<<mutex>>)) /\ Same(<<waiting>>)
                      \/ cpc = from \o "-tested" /\ cpc' = from \o "-asleep" /\ mutex' = "-" /\ waiting' = waiting \cup {C}
                   /\ Same(<<CUnit, paused, isdone, terminate, colh, colb, unit, op, hdr, head, body, nops>>)
CWake(from) == /\ cpc = from \o "-asleep" /\ C \notin waiting /\ Free /\ mutex' = C /\ cpc' = from
               /\ Same(<<CUnit, waiting, paused, isdone, terminate, colh, colb, unit, op, hdr, head, body, nops>>)
COpened == /\ cpc = "open-out" /\ Return([op |-> "open", doc |-> [us |-> Units(doc), tail |-> doc.tail]], "OK")
           /\ Same(<<doc, parser, shared, hdr, head, body, nops>>)
COpenW == CLockW("open-wait", "open-wait2") \/ CWait("open-wait2", "open-out") \/ CWake("open-wait2")

\* read and skip: first the header
CRead == /\ Begin("read") /\ ppc # "none" /\ cpc' = "header" /\ unit' = "u" /\ head' = 0 /\ body' = 0
         /\ Same(<<CUnit, mutex, waiting, paused, isdone, terminate, colh, colb, hdr>>)
CSkip == /\ Begin("skip") /\ ppc # "none" /\ cpc' = "header" /\ unit' = "u" /\ head' = 0 /\ body' = 0
         /\ Same(<<CUnit, mutex, waiting, paused, isdone, terminate, colh, colb, hdr>>)
CHeader == /\ cpc = "header"
           /\ (IF isdone THEN hdr' = FALSE /\ cpc' = "headed" /\ Same(<<colh, colb>>)
               ELSE colh' = TRUE /\ colb' = FALSE /\ cpc' = "resume-h" /\ Same(<<hdr>>))
           /\ Same(<<CUnit, mutex, waiting, paused, isdone, terminate, unit, op, head, body, nops>>)
CResume(from, to) == /\ cpc = from /\ (IF Locked THEN Free /\ mutex' = C ELSE Same(<<mutex>>))
                     /\ paused' = FALSE /\ NotifyP /\ cpc' = to
                     /\ Same(<<CUnit, isdone, terminate, colh, colb, unit, op, hdr, head, body, nops>>)
CRelock(from) == /\ ~Locked /\ cpc = from /\ mutex # C /\ Free /\ mutex' = C
                 /\ cpc' = from
                 /\ Same(<<CUnit, waiting, paused, isdone, terminate, colh, colb, unit, op, hdr, head, body, nops>>)
CHeadW == CResume("resume-h", "wait-h") \/ CRelock("wait-h") \/ CWait("wait-h", "header-out") \/ CWake("wait-h")
\* the unit that the parser stopped at
CHeaderOut == /\ cpc = "header-out" /\ colh' = FALSE /\ colb' = FALSE
              /\ hdr' = ~isdone /\ head' = (IF isdone THEN 0 ELSE Events(doc)[ev].u)
              /\ cpc' = "headed"
              /\ Same(<<CUnit, mutex, waiting, paused, isdone, terminate, unit, op, body, nops>>)
CSkipped == /\ cpc = "headed" /\ op = "skip" /\ Return([op |-> "skip"], IF hdr THEN 1 ELSE 0) /\ unit' = "-"
            /\ Same(<<doc, parser, mutex, waiting, paused, isdone, terminate, colh, colb, hdr, head, body, nops>>)
CBody == /\ cpc = "headed" /\ op = "read"
         /\ (IF isdone THEN cpc' = "read-out" /\ Same(<<colb, unit>>)
             ELSE colb' = TRUE /\ unit' = "u" /\ cpc' = "resume-b")
         /\ Same(<<CUnit, mutex, waiting, paused, isdone, terminate, colh, op, hdr, head, body, nops>>)
CBodyW == CResume("resume-b", "wait-b") \/ CRelock("wait-b") \/ CWait("wait-b", "body-out") \/ CWake("wait-b")
CBodyOut == /\ cpc = "body-out" /\ colb' = FALSE /\ cpc' = "read-out"
            /\ body' = (IF isdone THEN 0 ELSE Events(doc)[ev].u)
            /\ Same(<<CUnit, mutex, waiting, paused, isdone, terminate, colh, unit, op, hdr, head, nops>>)
CReadOut == /\ cpc = "read-out" /\ unit' = "-"
            /\ Return([op |-> "read"], IF hdr /\ body # 0 THEN Name(body) ELSE R!None)
            /\ Same(<<doc, parser, mutex, waiting, paused, isdone, terminate, colh, colb, hdr, head, body, nops>>)

CClose == /\ Begin("close") /\ ppc # "none" /\ Free /\ terminate' = TRUE /\ cpc' = "close2"
          /\ Same(<<CUnit, mutex, waiting, paused, isdone, colh, colb, unit, hdr, head, body>>)
CClose2 == /\ cpc = "close2" /\ Free /\ paused' = FALSE /\ NotifyP /\ cpc' = "join"
           /\ Same(<<CUnit, mutex, isdone, terminate, colh, colb, unit, op, hdr, head, body, nops>>)
CJoin == /\ cpc = "join" /\ ppc = "ended" /\ ppc' = "none" /\ Return([op |-> "close"], 0)
         /\ Same(<<doc, shared, ev, readroot, stopped, hdr, head, body, nops>>)

Caller == COpened \/ COpenW \/ CHeader \/ CHeadW \/ CHeaderOut \/ CSkipped \/ CBody \/ CBodyW \/ CBodyOut \/ CReadOut \/ CClose2 \/ CJoin
Call == COpen \/ CRead \/ CSkip \/ CClose
Spurious == \E t \in waiting : waiting' = waiting \ {t} /\ Same(<<doc, mutex, paused, isdone, terminate, colh, colb, unit, parser, caller, abs>>)

Next == Parser \/ Caller \/ Call \/ Spurious
Spec == Init /\ [][Next]_vars /\ SF_vars(Parser) /\ SF_vars(Caller)       \* whoever waits for the mutex gets it

---------------------------------------------------------------------------
Refines == abs # {}
\* what was read belongs together
SameUnit == (cpc = "read-out" /\ hdr /\ body # 0) => head = body
\* the parser is where it writes to the unit of the caller, or uses it
Touches == (ppc = "attrs") \/ (ppc = "body" /\ colb)
Waits == {w \o x : w \in {"wait-h", "wait-b"}, x \in {"", "-tested", "-asleep"}}
Exclusive == Touches => (unit = "u" /\ cpc \in Waits) \/ terminate
Joined == (cpc = "idle" /\ abs = {R!Fresh}) => ppc = "none"
Returns == (cpc # "idle") ~> (cpc = "idle")
NoDeadlock == (cpc # "idle") => ENABLED (Parser \/ Caller \/ Spurious)
=============================================================================
