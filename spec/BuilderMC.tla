------------------------------ MODULE BuilderMC ------------------------------
EXTENDS Builder
CONSTANT MaxDepth
VARIABLES s, last
StartX == {InitB(r) : r \in {"", "s"}}
OpsOf(st) ==
    {[op |-> o, u |-> "u"] : o \in {"start", "endelement", "end"}}
    \cup {[op |-> "element", u |-> "u", p |-> p, n |-> n, uri |-> uri] :
              <<p, n, uri>> \in { <<None, "e", None>>, <<None, "e", SRC>>, <<"s", "e", SRC>>, <<"p", "f", "urn:p">>, <<None, "f", "urn:d">>, <<None, "unit", None>>, <<None, "", None>> }}
    \cup {[op |-> "attribute", u |-> "u", p |-> p, n |-> n, uri |-> uri, v |-> v] :
              <<p, n, uri, v>> \in { <<None, "a", None, "1">>, <<"p", "a", "urn:p", "<">>, <<"p", "a", "urn:q", "2">>, <<None, "b", None, None>> }}
    \cup {[op |-> "namespace", u |-> "u", p |-> p, uri |-> uri] : <<p, uri>> \in { <<"p", "urn:p">>, <<"p", "urn:q">>, <<None, "urn:d">> }}
    \cup {[op |-> "text", u |-> "u", x |-> x] : x \in {"x", "<"}}
X == INSTANCE Explore WITH Results <- BResults
Spec == X!Spec
Emit == X!Emit
View == s
Bound == TLCGet("level") <= MaxDepth
\* tags balance: what was started is open or was ended
Count(ev, k) == Cardinality({i \in 1..Len(ev) : ev[i][1] = k})
Balanced == \A u \in Units : LET b == s.un[u] IN
                /\ Count(b.ev, "start") = Count(b.ev, "end") + Len(b.stack) - (IF b.intag THEN 1 ELSE 0)
                /\ (b.intag => Len(b.stack) > 0) /\ (~b.on => b = Idle)
\* nothing that was written is taken back, and a refused call has no effect
Prefix(x, y) == Len(x) <= Len(y) /\ \A i \in 1..Len(x) : x[i] = y[i] \/ (i = Len(x) /\ x[i][1] = "text")
Monotone == [][/\ (last'.r.st = "refused" => s' = s)
               /\ (last'.op.op \notin {"start", "end"} => \A u \in Units : Prefix(s.un[u].ev, s'.un[u].ev))]_<<s, last>>
=============================================================================
