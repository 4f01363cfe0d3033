-------------------------- MODULE SourceRoundTripMC --------------------------
EXTENDS SourceRoundTrip, TLC, Json
CONSTANTS Alphabet, MaxLen
VARIABLE s
Init == s = Fresh
Next == Len(s.in) < MaxLen /\ \E c \in Alphabet : s' = Char(s, c)
Spec == Init /\ [][Next]_s
Inv == Identity(s) /\ NoRawMarkup(s)
\* nothing already issued is taken back
Monotone == [][Len(s'.out) >= Len(s.out) /\ SubSeq(s'.out, 1, Len(s.out)) = s.out]_s
Emit == PrintT("TEXT " \o ToJson(s'.in))
=============================================================================
