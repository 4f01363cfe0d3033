----------------------------- MODULE ReadingMC ------------------------------
EXTENDS Reading, Json
CONSTANTS Docs, Archives
VARIABLES s, last
D(d) == CASE d = "empty" -> [us |-> <<>>, tail |-> "end"] [] d = "one" -> [us |-> <<"a">>, tail |-> "end"]
          [] d = "two" -> [us |-> <<"a", "b">>, tail |-> "end"] [] d = "part" -> [us |-> <<"a">>, tail |-> "part"]
          [] d = "cut" -> [us |-> <<"a">>, tail |-> "cut"] [] d = "nothing" -> [us |-> <<>>, tail |-> "cut"]
          [] d = "part1" -> [us |-> <<>>, tail |-> "part"]
OpsOf(st) == UNION {
    {[op |-> "open", a |-> a, d |-> d, doc |-> D(d)] : d \in (IF st[a + 1].st = "closed" THEN Docs ELSE {"one"})}
    \cup {[op |-> o, a |-> a] : o \in {"read", "skip", "free", "close", "gone"} \cup (IF st[a + 1].st = "open" THEN {"again"} ELSE {})} : a \in Archives}
INSTANCE Explore WITH StartX <- {Fresh}, Results <- RResults
View1 == s
TypeOK == \A a \in 1..2 : s[a].st \in {"open", "closed"} /\ s[a].tail \in {"end", "part", "cut", "loose"}
\* the end is the end
EndIsEnd == [][\A a \in 1..2 : (s[a].st = "open" /\ s'[a].st = "open" /\ last'.op.op # "open" /\ s[a].us = <<>> /\ s[a].tail = "end") => (s'[a].us = <<>> /\ s'[a].tail = "end" /\ (last'.op.op = "read" /\ last'.op.a = a - 1 => last'.r = None))]_xvars
\* units are delivered in order, none twice
Ordered == [][\A a \in 1..2 : (last'.op.op # "open" /\ s'[a].st = "open") => (s'[a].us = s[a].us \/ s'[a].us = Tail(s[a].us))]_xvars
=============================================================================
