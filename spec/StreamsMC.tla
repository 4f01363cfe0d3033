----------------------------- MODULE StreamsMC ------------------------------
EXTENDS Streams, Json
CONSTANTS Mode, MaxUs
VARIABLES s, last
StartX == {Fresh}
Ins(h) == BadIn[h] \cup {"s1", "s0"}
\* slow: takes a few bytes at a time
Outs(h) == BadOut[h] \cup {"good"} \cup (IF h = "io" THEN {"slow"} ELSE {})
RIns(h) == (BadIn[h] \cup {"good", "cut", "garbage"} \cup (IF h = "memory" THEN {} ELSE {"empty"})) \ {"wronly", "badfd"}
HR == Hows \ {"fd"}
Short(st) == st.w.st = "closed" \/ Len(st.w.us) < MaxUs
Common(st) == {[op |-> "end"]}
    \cup (IF st = Fresh /\ Mode = "both" THEN {[op |-> "convert", inp |-> i, dest |-> d] : i \in {"c", "xml", "none", "missing.c", "missing.xml", "dir.c", "dir.xml", "empty.xml"},
                                                                            d \in {"good"} \cup BadOut["file"]} ELSE {})
Writing(st) == {[op |-> "unit", lang |-> l] : l \in {"C", None, "Klingon", Unknown}}
    \cup UNION {{[op |-> "parse", how |-> h, inp |-> i] : i \in Ins(h)} : h \in Hows}
    \cup UNION {{[op |-> "wopen", how |-> h, dest |-> d, room |-> 260] : d \in Outs(h)} : h \in Hows}
    \cup (IF Short(st) /\ (st.w.st = "closed" \/ st.w.kind # "raw") THEN {[op |-> "write", x |-> "u"]} ELSE {})
    \cup (IF Short(st) /\ (st.w.st = "closed" \/ st.w.kind # "units") THEN {[op |-> "raw", x |-> x] : x \in {"t1", "big"}} ELSE {})
    \cup {[op |-> "wclose"], [op |-> "wfree"]}
Reading(st) == UNION {{[op |-> "ropen", how |-> h, inp |-> i] : i \in RIns(h)} : h \in HR}
    \cup {[op |-> o] : o \in {"read", "skip", "rclose", "rfree"}}
    \cup UNION {{[op |-> "unparse", how |-> h, dest |-> d, room |-> 3, enc |-> c] : c \in {"UTF-8", Unknown}, d \in Outs(h)} : h \in Hows}
\* reading and writing
Both(st) == {[op |-> "ropen", how |-> h, inp |-> i] : h \in {"file"}, i \in {"good", "cut"}} \cup {[op |-> "read"], [op |-> "rclose"], [op |-> "rfree"]}
    \cup {[op |-> "wopen", how |-> h, dest |-> "good"] : h \in {"memory", "file"}} \cup {[op |-> "parse", how |-> "io", inp |-> i] : i \in {"s1", "fail1"}}
    \cup (IF Short(st) THEN {[op |-> "write", x |-> x] : x \in {"u", "k"}} ELSE {}) \cup {[op |-> "wclose"], [op |-> "unit", lang |-> "C"]}
OpsOf(st) == Common(st) \cup (CASE Mode = "write" -> Writing(st) [] Mode = "read" -> Reading(st) [] OTHER -> Both(st))
X == INSTANCE Explore WITH Results <- XResults
Spec == X!Spec
Emit == X!Emit
View1 == s
Ok(r) == "st" \in DOMAIN r /\ r.st = "OK"
\* a call that does not say OK leaves the units written and the unit as they were
Harmless == [][last'.op.op \in {"parse", "write", "wopen", "ropen", "unparse"} /\ ~Ok(last'.r) => s'.u = s.u /\ s'.k = s.k /\ (s.w.st # "closed" => s'.w.us = s.w.us)]_<<s, last>>
\* nothing unusable is reported to be a success where the whole result is due
Accurate == [][/\ (last'.op.op = "parse" /\ Ok(last'.r) => last'.op.inp \in Sources)
               /\ (last'.op.op = "unparse" /\ Ok(last'.r) => last'.op.dest \in {"good", "slow"} \cup Tight /\ last'.r.src = s.k)
               /\ (last'.op.op = "wclose" /\ s.w.st = "open" /\ s.w.dest = "good" => last'.r.st = "OK" /\ last'.r.doc = s.w.us)
               /\ (last'.op.op = "wclose" /\ s.w.st = "failed" => ~Ok(last'.r))]_<<s, last>>
=============================================================================
