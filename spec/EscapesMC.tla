----------------------------- MODULE EscapesMC ------------------------------
(* all short texts of the characters that escapes are made of *)
EXTENDS Escapes, Json
CONSTANTS MaxLen
VARIABLES t
Init == t = <<>>
\*         \   0   1   3   8   A   g    n    x
Chars == {92, 48, 49, 51, 56, 65, 103, 110, 120}
Next == Len(t) < MaxLen /\ \E c \in Chars : t' = Append(t, c)
Spec == Init /\ [][Next]_t
\* nothing gets lost, and nothing is read twice
Bound == LET p == Parts(t) IN Len(p) >= 1 /\ Len(FlattenSeq(p)) + Len(p) - 1 <= Len(t)
Bytes == \A i \in 1..Len(Parts(t)) : \A j \in 1..Len(Parts(t)[i]) : Parts(t)[i][j] \in 1..255
\* a text without escapes is itself
Plain == Backslash \notin ToSet(t) => Parts(t) = <<t>>
\* all bytes can be given with escapes
Quoted(b) == <<Backslash, 48>> \o <<48 + b \div 64, 48 + ((b \div 8) % 8), 48 + (b % 8)>>
All == Parts(FlattenSeq([i \in 1..Len(t) |-> Quoted(t[i])])) = <<t>>
Emit == PrintT("CASE " \o ToJson(t'))
=============================================================================
