----------------------------- MODULE SettingsMC -----------------------------
EXTENDS Settings, TLC
CONSTANT MaxDepth
VARIABLES s, last
Objs == {"a", "b", "u", "v", "g"}
StartX == {InitSettings}
\* two values for each register, rejected ones, and both directions of cloning
OpsOf(st) ==
    {[op |-> "str", h |-> "a", f |-> f, v |-> v] : f \in {"url", "xmlenc"}, v \in {"x", None}}
    \cup {[op |-> "str", h |-> h, f |-> "lang", v |-> v] : h \in {"u", "v"}, v \in {"C", None}}
    \cup {[op |-> "opts", h |-> "a", bits |-> b] : b \in {<<>>, <<3>>, <<8, 1>>}}
    \cup {[op |-> o, h |-> h, bits |-> <<3>>] : o \in {"enable", "disable"}, h \in {"a", "b"}}
    \cup {[op |-> "flag", h |-> "a", f |-> f, on |-> b] : f \in {"hash", "solitary"}, b \in BOOLEAN}
    \cup {[op |-> "ns", h |-> "b", p |-> "p", u |-> u] : u \in {CppURI, SrcURI}}
    \cup {[op |-> "eol", h |-> "u", n |-> n] : n \in {3, 4}}
    \cup {[op |-> "clonea", h |-> "a", k |-> "b"], [op |-> "clonea", h |-> "b", k |-> "a"],
          [op |-> "cloneu", h |-> "u", k |-> "v"], [op |-> "newa", h |-> "a"], [op |-> "newu", h |-> "v"], [op |-> "use"],
          [op |-> "none"]}
    \cup {[op |-> "mid", h |-> h, k |-> IF h = "a" THEN "b" ELSE "a", w |-> w] :
            h \in {x \in {"a", "b"} : st[x].xmlenc = None}, w \in {"raw", "unit", "both", "none"}}
X == INSTANCE Explore
Spec == X!Spec
Emit == X!Emit
View == s
Bound == TLCGet("level") <= MaxDepth
\* every state is a state of the registers: an operation changes the one it names and nothing else
Target(o) == IF o.op \in {"clonea", "cloneu", "mid"} THEN {o.k} ELSE IF o.op \in {"use", "none"} THEN {} ELSE {o.h}
Isolated == [][LET o == last'.op IN
      /\ \A h \in Objs \ Target(o) : s'[h] = s[h]
      /\ (last'.r.st # "OK" => s' = s)
      /\ (o.op = "str" => s'[o.h][o.f] = o.v /\ \A f \in DOMAIN s[o.h] \ {o.f} : s'[o.h][f] = s[o.h][f])
      /\ (o.op \in {"enable", "disable", "opts"} => \A f \in DOMAIN s[o.h] \ {"opts"} : s'[o.h][f] = s[o.h][f])
      /\ (o.op \in {"enable", "disable"} =>
            \A i \in 1..7 : (i - 1) \notin Low(o.bits) => s'[o.h].opts[i] = s[o.h].opts[i])]_<<s, last>>
TypeOK == \A h \in {"a", "b", "g"} : /\ Len(s[h].opts) = 7
                                      /\ \A i, j \in 1..Len(s[h].ns) : s[h].ns[i][2] = s[h].ns[j][2] => i = j
=============================================================================
