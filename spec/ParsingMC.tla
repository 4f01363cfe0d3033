------------------------------ MODULE ParsingMC -----------------------------
\* every operation in every combination of settings of two archives
EXTENDS Parsing, Json, TLC
CONSTANTS Opts, Tabs, Prefixes, Encodings, Texts, Others
VARIABLES s, last
OpsOf(st) == {[op |-> "new", a |-> a] : a \in Archives}
        \cup {[op |-> "opt", a |-> a, v |-> v] : a \in Archives, v \in Opts}
        \cup {[op |-> "tab", a |-> a, v |-> v] : a \in Archives, v \in Tabs}
        \cup {[op |-> "ns", a |-> a, v |-> v] : a \in Archives, v \in Prefixes}
        \cup {[op |-> "enc", a |-> a, v |-> v] : a \in Archives, v \in Encodings}
        \cup {[op |-> "parse", a |-> a, x |-> x, lang |-> "C++"] : a \in Archives, x \in Texts}
        \cup {[op |-> "other", what |-> v] : v \in Others}
MResults(st, e) == PResults(st, e, LAMBDA k : k)
INSTANCE Explore WITH StartX <- {Fresh}, Results <- MResults
View1 == s
\* parsing in one archive is not affected by the other
Independent == \A a \in Archives : \A v \in Opts :
                  LET t == [s EXCEPT !.arch[a].opt = v]
                  IN \A b \in Archives \ {a} : \A x \in Texts :
                       {o.r : o \in MResults(s, [op |-> "parse", a |-> b, x |-> x, lang |-> "C++"])} = {o.r : o \in MResults(t, [op |-> "parse", a |-> b, x |-> x, lang |-> "C++"])}
=============================================================================
