------------------------------- MODULE Extract -------------------------------
(***************************************************************************)
(* Extraction of the source of a unit that was read.  The state is its     *)
(* text and the settings in force; extracting changes nothing.  The bytes  *)
(* are the text with each line end replaced, in the encoding of the unit,   *)
(* else of the archive, else ISO-8859-1, wherever they are sent.           *)
(***************************************************************************)
EXTENDS Decode

Eols == [AUTO |-> <<10>>, LF |-> <<10>>, CR |-> <<13>>, CRLF |-> <<13, 10>>]
Lines(text, eol) == FoldLeft(LAMBDA a, c : a \o (IF c = LF THEN Eols[eol] ELSE <<c>>), <<>>, text)

B8(c) == IF c < 128 THEN <<c>>
         ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
         ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
         ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
L16(x) == <<x % 256, x \div 256>>
B16(c) == IF c < 65536 THEN L16(c) ELSE L16(55296 + ((c - 65536) \div 1024)) \o L16(56320 + ((c - 65536) % 1024))
Swap(b) == [i \in 1..Len(b) |-> IF i % 2 = 1 THEN b[i + 1] ELSE b[i - 1]]
B(enc, c) == CASE enc = "UTF-8" -> B8(c) [] enc = "UTF-16LE" -> B16(c) [] enc = "UTF-16BE" -> Swap(B16(c)) [] enc = "UTF-16" -> B16(c) [] OTHER -> <<c>>
Encode(enc, text) == (IF enc = "UTF-16" THEN BOM16L ELSE <<>>) \o FoldLeft(LAMBDA a, c : a \o B(enc, c), <<>>, text)

InForce(st) == IF st.enc # None THEN st.enc ELSE IF st.aenc # None THEN st.aenc ELSE "ISO-8859-1"
Bytes(st) == Encode(InForce(st), Lines(st.text, st.eol))
\* what the caller finds of a destination it owns, and of one the library opens
Afterwards(how) == CASE how \in {"FILE", "fd"} -> "still open" [] how = "io" -> "closed 1" [] how = "ioleft" -> "closed 0" [] OTHER -> None

Fresh == [text |-> <<>>, eol |-> "AUTO", enc |-> None, aenc |-> None]
XResults(st, e) ==
    CASE e.op = "unit" -> {[s |-> [text |-> Fold(e.text), eol |-> "AUTO", enc |-> e.enc, aenc |-> e.aenc], r |-> "OK"]}
      [] e.op = "eol" -> {[s |-> [st EXCEPT !.eol = e.v], r |-> "OK"]}
      [] e.op = "enc" -> {[s |-> [st EXCEPT !.enc = e.v], r |-> "OK"]}
      [] e.op = "aenc" -> {[s |-> [st EXCEPT !.aenc = e.v], r |-> "OK"]}
      [] e.op = "unparse" -> {[s |-> st, r |-> [st |-> "OK", bytes |-> Bytes(st), after |-> Afterwards(e.how)]]}
      \* large texts: the expected bytes are given by their digest
      [] e.op = "big" -> {[s |-> st, r |-> [st |-> "OK", sha |-> e.want, after |-> Afterwards(e.how)]]}
      \* another look at the unit
      [] e.op = "look" -> {[s |-> st, r |-> "OK"]}
      [] OTHER -> {}
=============================================================================
