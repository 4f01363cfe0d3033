---------------------------- MODULE TransformMC ----------------------------
EXTENDS Transform
CONSTANTS MaxA, MaxB, Small
VARIABLES s, last

T(v) == <<"t", v>>
S(n, at) == <<"s", n, at>>
E == <<"e">>
\* nested and repeated elements, markup-significant text, an element with nothing in it
D1 == << S("unit", << <<"language", "C">>, <<"filename", "a.c">> >>), S("expr", <<>>), S("name", << <<"type", "x\"y&<">> >>), T("a"), E, T(" < "),
         S("expr", << <<"type", "">> >>), S("name", <<>>), T("b"), E, E, T("&\"'>"), E, S("block", <<>>), E, E >>
D2 == << S("unit", << <<"language", "Java">>, <<"filename", "p/B.java">> >>), T("é "), S("name", <<>>), S("name", <<>>), T("c"), E, E, E >>
StartX == {InitT(<<D1, D2>>)}

Some == { [t |-> "sel", n |-> "expr"], [t |-> "mark", n |-> "name", v |-> "1"],
          [t |-> "param", v |-> "dflt"], [t |-> "rng", n |-> "block"] }
All == { [t |-> "sel", n |-> "expr"], [t |-> "sel", n |-> "name"], [t |-> "sel", n |-> "unit"], [t |-> "sel", n |-> "zzz"],
         [t |-> "text", n |-> "expr"], [t |-> "at", n |-> "name", a |-> "type"], [t |-> "at", n |-> "expr", a |-> "type"],
         [t |-> "mark", n |-> "name", v |-> "1"], [t |-> "mark", n |-> "unit", v |-> "2"], [t |-> "mark", n |-> "expr", v |-> "3"],
         [t |-> "wrap", n |-> "expr", w |-> "w", v |-> "-"], [t |-> "wrap", n |-> "unit", w |-> "w", v |-> "-"],
         [t |-> "wrap", n |-> "name", w |-> "w", v |-> "-"],
         [t |-> "count", n |-> "name"], [t |-> "has", n |-> "block"], [t |-> "str", n |-> "expr"],
         [t |-> "copy"], [t |-> "rename", n |-> "name", to |-> "expr"], [t |-> "each", n |-> "name"], [t |-> "drop"], [t |-> "xtext"],
         [t |-> "param", v |-> "dflt"], [t |-> "rng", n |-> "block"] }

Bads == {"xpath", "xpathnull", "xslt-malformed", "xslt-other", "xslt-select", "rng-malformed", "rng-other", "rng-undefined"}
Docs0 == InitT(<<D1, D2>>).docs
\* a unit that was replaced ends the exploration
OpsOf(st) == IF st.docs # Docs0 THEN {} ELSE
    UNION { {[op |-> "append", h |-> h, x |-> x] : x \in (IF Small THEN Some ELSE All)}
            \cup {[op |-> "apply", h |-> h, u |-> u] : u \in 1..2 \ st.part}
            \cup {[op |-> "clear", h |-> h]}
            \cup (IF Small THEN {[op |-> "bad", h |-> h, what |-> w] : w \in Bads}
                                \cup (IF \E i \in 1..Len(st.tr[h]) : st.tr[h][i].t = "param" /\ st.tr[h][i].v # "dflt" THEN {}
                                      ELSE {[op |-> "param", h |-> h, n |-> "p", v |-> "q" \o h]})
                  ELSE {[op |-> "replace", h |-> h, u |-> u] : u \in 1..2 \ st.part})
            : h \in (IF Small THEN Archives ELSE {"a"}) }
    \cup (IF Small THEN {[op |-> "clone", h |-> "a", k |-> "b"]} ELSE {})

Results(st, op) == TResults(st, op)
X == INSTANCE Explore
Spec == X!Spec
Emit == X!Emit
View == s
Bound == Len(s.tr["a"]) <= MaxA /\ Len(s.tr["b"]) <= MaxB

Inv == /\ \A u \in 1..2 : WellFormed(s.docs[u])
       /\ \A u \in 1..2 : \A n \in {"unit", "expr", "name", "block"} : Complete(s.docs[u], n)
       /\ \A h \in Archives : \A u \in 1..2 : Composes(s.tr[h], s.docs[u])
       /\ \A h \in Archives : \A u \in 1..2 : LET o == Outcome(Pipeline(s.tr[h], s.docs[u]), s.docs[u])
                                                IN (o.type = "UNITS") = (o.units # <<>>) /\ \A i \in 1..Len(o.units) : WellFormed(o.units[i])
\* a refused operation changes nothing, applying changes nothing, and only the named archive changes
Isolated == [][LET o == last'.op IN
                 /\ (o.op \in {"apply", "bad"} => s' = s)
                 /\ (o.op \in {"append", "param", "clear"} => s'.docs = s.docs /\ \A h \in Archives \ {o.h} : s'.tr[h] = s.tr[h])]_<<s, last>>
=============================================================================
