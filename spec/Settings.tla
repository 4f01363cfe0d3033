------------------------------ MODULE Settings ------------------------------
(***************************************************************************)
(* The settings of archives (handles "a", "b", "c"), of the process-wide   *)
(* interface ("g") and of units ("u", "v", "w") as independent registers.  *)
(* Every operation is followed by reading back every register of every     *)
(* object, so the result of an operation is its status together with the   *)
(* complete state seen through the getters.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == "-"                         \* not set: the getter gives NULL
SrcURI == "http://www.srcML.org/srcML/src"
CppURI == "http://www.srcML.org/srcML/cpp"
ErrURI == "http://www.srcML.org/srcML/srcerr"
PosURI == "http://www.srcML.org/srcML/position"

OptionBits == 0..6                  \* the options a user can set
CppBit == 3
PosBit == 2
BitSeq(S) == [i \in 1..7 |-> (i - 1) \in S]
SeqBits(q) == {i - 1 : i \in {j \in 1..7 : q[j]}}

FreshArchive == [srcenc |-> None, xmlenc |-> None, lang |-> None, url |-> None, version |-> None, tabs |-> 8,
                 opts |-> BitSeq({}), solitary |-> FALSE, hash |-> TRUE, pi |-> <<None, None>>,
                 ns |-> << <<"", SrcURI>> >>, rev |-> 2]
FreshUnit == [srcenc |-> None, lang |-> None, file |-> None, version |-> None, time |-> None, eol |-> 0]

Archives == {"a", "b"}
Units == {"u", "v"}
InitSettings == [a |-> FreshArchive, b |-> FreshArchive, u |-> FreshUnit, v |-> FreshUnit,
                 g |-> [srcenc |-> None, xmlenc |-> None, lang |-> None, url |-> None, version |-> None, tabs |-> 8,
                        opts |-> BitSeq({}), solitary |-> FALSE, hash |-> TRUE, pi |-> <<None, None>>,
                        ns |-> << <<"", SrcURI>> >>, rev |-> 2, file |-> None, time |-> None, eol |-> 0]]

\* ------------------------------------------------------------------ registers
AStr == {"srcenc", "xmlenc", "lang", "url", "version"}
UStr == {"srcenc", "lang", "file", "version", "time"}
GStr == AStr \cup {"file", "time"}

Reply(s, st) == [s |-> s, r |-> [st |-> st, all |-> s]]
Refused(s) == Reply(s, "INVALID_ARGUMENT")

SetStr(s, h, f, v) == Reply([s EXCEPT ![h] = [@ EXCEPT ![f] = v]], "OK")
SetTabs(s, h, n) == Reply([s EXCEPT ![h].tabs = n], "OK")

Low(bits) == {b \in {bits[i] : i \in 1..Len(bits)} : b \in OptionBits}
SetOpts(s, h, bits) == Reply([s EXCEPT ![h].opts = BitSeq(Low(bits))], "OK")
Enable(s, h, bits) == Reply([s EXCEPT ![h].opts = BitSeq(SeqBits(@) \cup Low(bits))], "OK")
Disable(s, h, bits) == Reply([s EXCEPT ![h].opts = BitSeq(SeqBits(@) \ Low(bits))], "OK")
Flag(s, h, f, on) == Reply([s EXCEPT ![h] = [@ EXCEPT ![f] = on]], "OK")
SetPI(s, h, t, d) == IF t = None \/ d = None THEN Refused(s) ELSE Reply([s EXCEPT ![h].pi = <<t, d>>], "OK")
SetRev(s, h, n) == IF n \notin {0, 1} THEN Refused(s) ELSE Reply([s EXCEPT ![h].rev = n], "OK")
SetEol(s, h, n) == IF n > 3 THEN Refused(s) ELSE Reply([s EXCEPT ![h].eol = n], "OK")

\* a registered namespace may turn on the option it belongs to
Register(ns, p, u) ==
    IF \E i \in 1..Len(ns) : ns[i][2] = u
      THEN [i \in 1..Len(ns) |-> IF ns[i][2] = u THEN <<p, u>> ELSE ns[i]]
      ELSE Append(ns, <<p, u>>)
Implied(u) == IF u = CppURI THEN {CppBit} ELSE IF u = PosURI THEN {PosBit} ELSE {}
SetNs(s, h, p, u) ==
    IF p = None \/ u = None THEN Refused(s)
    ELSE Reply([s EXCEPT ![h].ns = Register(@, p, u), ![h].opts = BitSeq(SeqBits(@) \cup Implied(u))], "OK")

CloneA(s, h, k) == Reply([s EXCEPT ![k] = s[h]], "OK")
CloneU(s, h, k) == Reply([s EXCEPT ![k] = s[h]], "OK")
NewA(s, h) == Reply([s EXCEPT ![h] = FreshArchive], "OK")
NewU(s, h) == Reply([s EXCEPT ![h] = FreshUnit], "OK")
\* cloned while a document is written: the clone has nothing of that document, and what is written with it is not in it
Midway(s, h, k, w) == LET t == [s EXCEPT ![k] = s[h]]
                          empty == IF s[h].solitary THEN <<>> ELSE <<"unit">>      \* an archive without units has a root
    IN [s |-> t, r |-> [st |-> "OK", all |-> t, docs |-> << IF w = "none" THEN empty ELSE <<"unit", "m">>,
                                                            IF w \in {"raw", "unit"} THEN empty ELSE <<"unit", "n">> >>]]
\* writing a document with an archive, reading one with another archive: settings stay
Use(s) == Reply(s, "OK")

Results(s, e) ==
    CASE e.op = "str" -> {SetStr(s, e.h, e.f, e.v)}
      [] e.op = "tabs" -> {SetTabs(s, e.h, e.n)}
      [] e.op = "opts" -> {SetOpts(s, e.h, e.bits)}
      [] e.op = "enable" -> {Enable(s, e.h, e.bits)}
      [] e.op = "disable" -> {Disable(s, e.h, e.bits)}
      [] e.op = "flag" -> {Flag(s, e.h, e.f, e.on)}
      [] e.op = "pi" -> {SetPI(s, e.h, e.t, e.d)}
      [] e.op = "rev" -> {SetRev(s, e.h, e.n)}
      [] e.op = "eol" -> {SetEol(s, e.h, e.n)}
      [] e.op = "ns" -> {SetNs(s, e.h, e.p, e.u)}
      [] e.op = "clonea" -> {CloneA(s, e.h, e.k)}
      [] e.op = "cloneu" -> {CloneU(s, e.h, e.k)}
      [] e.op = "mid" -> {Midway(s, e.h, e.k, e.w)}
      [] e.op = "newa" -> {NewA(s, e.h)}
      [] e.op = "newu" -> {NewU(s, e.h)}
      [] e.op = "use" -> {Use(s)}
      [] e.op = "none" -> {Refused(s)}            \* a missing handle
      [] OTHER -> {}
=============================================================================
