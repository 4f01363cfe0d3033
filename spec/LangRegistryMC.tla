--------------------------- MODULE LangRegistryMC ---------------------------
EXTENDS LangRegistry, TLC
CONSTANT MaxReg
VARIABLES s, last

Handles == {"a", "b"}
Exts == { <<"c">>, <<"x">> }
Files == { <<"f",".","c">>, <<"f",".","x">>, <<"f",".","c",".","x">>, <<"x">>, <<"f",".","c",".","g","z">>,
           <<"d",".","c","/","f">>, <<".","g","z">>, <<"f",".">>, <<"f",".","C">> }
StartX == {InitReg(Handles)}
OpsOf(st) ==
    UNION { {[op |-> "register", h |-> h, ext |-> x, lang |-> g] : x \in Exts, g \in {"C++", "Java", "Klingon"}}
            \cup {[op |-> "setlang", h |-> h, lang |-> g] : g \in {"C#", None, "Klingon"}}
            \cup {[op |-> "check", h |-> h, file |-> f] : f \in Files}
            \cup {[op |-> "parse", h |-> h, ulang |-> u, file |-> f, byname |-> b] :
                     u \in {None, "Java", "Klingon"}, f \in { <<"f",".","c">>, <<"f",".","x">>}, b \in BOOLEAN}
            : h \in Handles }
    \cup {[op |-> "clone", h |-> "a", k |-> "b"], [op |-> "renew", h |-> "a"]}

X == INSTANCE Explore
Spec == X!Spec
Emit == X!Emit
View == s
Bound == \A h \in Handles : Len(s[h].reg) <= MaxReg

Inv == \A h \in Handles : NewestWins(s[h]) /\ DefaultsKept(s[h]) /\ OnlyKnown(s[h])
\* an operation changes only the handle it names, and a refused one nothing
Isolated == [][LET o == last'.op IN
                 /\ (o.op \in {"check", "parse"} => s' = s)
                 /\ (last'.r \notin {"OK"} => s' = s)
                 /\ (o.op \in {"register", "setlang", "renew"} => \A h \in Handles \ {o.h} : s'[h] = s[h])
                 /\ (o.op = "clone" => s'[o.h] = s[o.h] /\ s'[o.k] = s[o.h])]_<<s, last>>
=============================================================================
