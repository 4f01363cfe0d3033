----------------------------- MODULE ExtractMC -----------------------------
EXTENDS Extract, Json
CONSTANT Dummy
VARIABLES s, last
T1 == <<97, 13, 10, 10, 233, 13, 60>>
StartX == {[text |-> Fold(T1), eol |-> "AUTO", enc |-> None, aenc |-> None]}
Encs == {None, "UTF-8", "ISO-8859-1", "UTF-16LE"}
OpsOf(st) == {[op |-> "eol", v |-> v] : v \in DOMAIN Eols} \cup {[op |-> "enc", v |-> v] : v \in Encs \ {None}} \cup {[op |-> "aenc", v |-> v] : v \in Encs \ {None}}
             \cup {[op |-> "unparse", how |-> h] : h \in {"memory", "file", "FILE", "fd", "io", "ioleft"}} \cup {[op |-> "look"]}
X == INSTANCE Explore WITH Results <- XResults
Spec == X!Spec
Emit == X!Emit
View1 == s
\* decoding what is extracted gives the text again, whatever the line ends and encoding
RoundTrip == \A e \in {"UTF-8", "ISO-8859-1", "UTF-16LE", "UTF-16BE", "UTF-16"} : Text(e, Encode(e, Lines(s.text, s.eol))) = s.text
Breaks == LET q == Lines(s.text, s.eol) IN Len(q) = Len(s.text) + (IF s.eol = "CRLF" THEN Len(SelectSeq(s.text, LAMBDA c : c = LF)) ELSE 0)
Pure == [][last'.op.op \in {"unparse", "look"} => s' = s]_<<s, last>>
=============================================================================
