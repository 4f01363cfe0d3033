---------------------------- MODULE ClientQueueMC ---------------------------
\* all short sequences of inputs
EXTENDS ClientQueue, Json, TLC
CONSTANTS MaxIn
VARIABLES s, last
OpsOf(st) == IF Len(st.in) < MaxIn THEN {[op |-> "schedule", k |-> k, n |-> "f" \o ToString(Len(st.in) + 1)] : k \in {"o", "e", "u", "l", "m"}} ELSE {}
INSTANCE Explore WITH StartX <- {Fresh}, Results <- QResults
View1 == s
Emit1 == PrintT("EDGE " \o ToJson(<<s.in, last'.op, s'.in>>))
=============================================================================
