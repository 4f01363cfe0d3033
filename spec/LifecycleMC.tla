---------------------------- MODULE LifecycleMC ----------------------------
EXTENDS Lifecycle, TLC
CONSTANT MaxDepth
VARIABLES s, last
StartX == {Fresh}
OpsOf(st) ==
    {[op |-> o, h |-> h] : o \in {"wopen", "openfail", "close", "wstring", "skip"}, h \in Arch}
    \cup {[op |-> "ropen", h |-> "a", d |-> d] : d \in DOMAIN Docs}
    \cup {[op |-> "solitary", h |-> "b", on |-> TRUE]}
    \cup {[op |-> o, h |-> h, u |-> u] : o \in {"write", "apply"}, h \in Arch, u \in Slots}
    \cup {[op |-> "read", h |-> "a", u |-> u] : u \in Slots}
    \cup {[op |-> "read", h |-> "b", u |-> "v"]}
    \cup {[op |-> "create", u |-> "u", h |-> h] : h \in Arch}
    \cup {[op |-> "cloneu", u |-> "u", w |-> "v"]}
    \cup {[op |-> "free", u |-> "v"]}
    \cup {[op |-> "parse", u |-> u, x |-> "p;"] : u \in Slots}
    \cup {[op |-> o, u |-> u] : o \in {"wstart", "wend", "unparse"}, u \in Slots}
    \cup {[op |-> o, u |-> "u"] : o \in {"parsefail", "parsenolang"}}
    \cup {[op |-> "wtext", u |-> "u", x |-> "w;"]}
    \cup {[op |-> "wother", u |-> u, o |-> "endelement"] : u \in Slots}
X == INSTANCE Explore WITH Results <- LResults
Spec == X!Spec
Emit == X!Emit
View == s
Bound == TLCGet("level") <= MaxDepth
\* texts being written stay short
Small == \A u \in Slots : s.un[u].bld \in {None, "", "w;"}
TypeOK == /\ \A h \in Arch : s.ar[h].ph \in {"closed", "read", "write"}
          /\ \A u \in Slots : (s.un[u].ph = "done") = (s.un[u].txt # None)
\* a refused operation changes nothing
Refusals == {InvArg, InvIO, "IO_ERROR", "UNINITIALIZED_UNIT", "UNSET_LANGUAGE", "INVALID_INPUT", "NO_TRANSFORMATION", "NULL", "0"}
Harmless == [][last'.r.st \in Refusals => s' = s]_<<s, last>>
\* only the operations for it change what will be in a document
Output == [][\A h \in Arch : s'.ar[h].out # s.ar[h].out =>
               last'.op.op \in {"wopen", "close"} \/ (last'.op.op = "write" /\ s'.ar[h].out = Append(s.ar[h].out, s.un[last'.op.u].txt))]_<<s, last>>
=============================================================================
