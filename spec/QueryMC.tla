------------------------------ MODULE QueryMC ------------------------------
EXTENDS Query, Json
CONSTANTS MaxDepth, All
VARIABLES s, last

U(n, l, k) == << <<"s", "unit", <<<<"language", l>>, <<"filename", n>>>>>> >> \o k \o << <<"e">> >>
N(x) == << <<"s", "name", <<>>>>, <<"t", x>>, <<"e">> >>
Docs == <<
    \* a solitary unit, an archive with units of several kinds, an archive with one unit, one without any
    [form |-> "solitary", url |-> "u v", ns |-> << <<"", Src>> >>,
     us |-> << << <<"s", "unit", <<<<"language", "C">>, <<"filename", "a.c">>, <<"hash", "ab">>, <<"version", "v1">>>>>> >> \o N("a") \o << <<"t", " < ">> >> \o N("b") \o << <<"t", "\n">>, <<"e">> >> >>],
    [form |-> "archive", url |-> "w", ns |-> << <<"", Src>>, <<"m", "urn:m">> >>,
     us |-> << U("b.java", "Java", << <<"s", "expr", <<<<"type", "t&">>>>>> >> \o N("c") \o << <<"e">>, <<"t", "x">> >>),
               << <<"s", "unit", <<<<"filename", "n.c">>, <<"timestamp", "T">>>>>>, <<"e">> >>, U("d.c", "C", N("d")) >>],
    [form |-> "archive", url |-> "-", ns |-> << <<"", Src>> >>, us |-> << U("e.c", "C++", << <<"t", "no mark\n">> >>) >>],
    [form |-> "archive", url |-> "z", ns |-> << <<"", Src>> >>, us |-> <<>>] >>
Strings == {"", "a", "b", "c", "d", "a < b\n", "cx", "no mark\n", "\n", "x", "c\n"}
Tab == [docs |-> Docs, text |-> [x \in Strings |-> [loc |-> CASE x = "" -> 0 [] OTHER -> 1, nl |-> x \in {"a < b\n", "no mark\n", "\n", "c\n"}]]]
StartX == {[t |-> Tab, d |-> NoDoc]}

One1 == { <<>>, <<[t |-> "sel", n |-> "name"]>>, <<[t |-> "sel", n |-> "unit"]>>, <<[t |-> "count", n |-> "name"]>>, <<[t |-> "has", n |-> "expr"]>>,
          <<[t |-> "str", n |-> "name"]>>, <<[t |-> "mark", n |-> "name", v |-> "1"]>>, <<[t |-> "wrap", n |-> "name", w |-> "w", v |-> "-"]>>,
          <<[t |-> "copy"]>>, <<[t |-> "each", n |-> "name"]>>, <<[t |-> "drop"]>>, <<[t |-> "xtext"]>>, <<[t |-> "rng", n |-> "expr"]>>, <<[t |-> "param", v |-> "q"]>>,
          <<[t |-> "text", n |-> "name"]>>, <<[t |-> "at", n |-> "unit", a |-> "filename"]>> }
Two == { <<[t |-> "each", n |-> "name"], [t |-> "count", n |-> "name"]>>, <<[t |-> "sel", n |-> "expr"], [t |-> "sel", n |-> "name"]>>,
         <<[t |-> "sel", n |-> "name"], [t |-> "copy"]>>, <<[t |-> "wrap", n |-> "unit", w |-> "x", v |-> "2"], [t |-> "mark", n |-> "name", v |-> "1"]>> }
Chains == IF All THEN One1 \cup Two ELSE { <<>>, <<[t |-> "sel", n |-> "name"]>>, <<[t |-> "mark", n |-> "name", v |-> "1"]>>, <<[t |-> "each", n |-> "name"]>>, <<[t |-> "copy"]>> }
Kinds == {"encoding", "url", "filename", "language", "version", "hash", "timestamp"}
FieldSets == {<<x>> : x \in Kinds} \cup {<<"url", "language">>, <<"encoding", "url">>, <<"encoding", "filename", "hash">>, <<"filename", "language", "version", "hash", "timestamp">>}

Ins(st) == {<<i>> : i \in 1..3} \cup {<<1, 2>>, <<3, 1>>} \cup (IF Readable(st.d) THEN {<<0>>, <<0, 1>>} ELSE {})
OpsOf(st) ==
    {[op |-> "transform", in |-> <<i>>, ts |-> ts, n |-> 0, ns |-> << <<"", Src>> >>, lost |-> l] : i \in 1..2, ts \in Chains, l \in {"full", "nodir"}} \cup
    {[op |-> "transform", in |-> i, ts |-> ts, n |-> n, ns |-> << <<"", Src>> >>] : i \in Ins(st), ts \in Chains, n \in {0}}
    \cup {[op |-> "transform", in |-> <<i>>, ts |-> ts, n |-> n, ns |-> << <<"", Src>> >>] : i \in 1..2, ts \in Chains, n \in 1..4}
    \cup UNION {{[op |-> "list", in |-> <<i>>], [op |-> "info", in |-> <<i>>, long |-> FALSE], [op |-> "info", in |-> <<i>>, long |-> TRUE], [op |-> "count", in |-> <<i>>],
                 [op |-> "prefix", in |-> <<i>>, uri |-> Src], [op |-> "prefix", in |-> <<i>>, uri |-> "urn:m"]}
                \cup {[op |-> o, in |-> <<i>>, n |-> n] : o \in {"outer", "inner"}, n \in 0..4}
                \cup {[op |-> "fields", in |-> <<i>>, fs |-> f, n |-> n] : f \in FieldSets, n \in 0..4}
                \cup {[op |-> o, in |-> <<i>>, lost |-> "full"] : o \in {"list", "count"}} \cup {[op |-> "info", in |-> <<i>>, long |-> FALSE, lost |-> "full"], [op |-> "prefix", in |-> <<i>>, uri |-> Src, lost |-> "full"]}
                \cup {[op |-> o, in |-> <<i>>, n |-> 0, lost |-> "full"] : o \in {"outer", "inner"}} \cup {[op |-> "fields", in |-> <<i>>, fs |-> f, n |-> 0, lost |-> "full"] : f \in FieldSets}
                : i \in IF Readable(st.d) /\ st.d.us # <<>> THEN {0} ELSE 1..4}
Results(st, op) == QResults(st, op)
X == INSTANCE Explore
Spec == X!Spec
\* the tables are the same in every state
Emit == PrintT("EDGE " \o ToJson(<<s.d, last'.op, s'.d>>))
View == s
Bound == TLCGet("level") <= MaxDepth

Inv == \A i \in 1..Len(s.d.us) : WellFormed(s.d.us[i])
\* nothing but a transformation makes a document; copying one keeps its units; the results of several inputs are those of each
Only == [][last'.op.op # "transform" => s' = s]_<<s, last>>
Kept == [][LET o == last'.op IN (o.op = "transform" /\ "lost" \notin DOMAIN o /\ o.ts = <<>> /\ o.n = 0 /\ last'.r.st = 0) =>
                Concat([i \in 1..Len(o.in) |-> LET d == DocOf(s, o.in[i]) IN [j \in 1..Len(d.us) |-> Lang(d.us[j])]]) = last'.r.doc.us]_<<s, last>>
Apart == [][LET o == last'.op IN (o.op = "transform" /\ Len(o.in) = 2 /\ last'.r.st = 0 /\ Readable(last'.r.doc)) =>
                LET R(k) == TransformDocs(s.t, <<DocOf(s, o.in[k])>>, o)
                    Us(k) == IF Readable(R(k)) THEN R(k).us ELSE <<>>
                IN last'.r.doc.us = Us(1) \o Us(2)]_<<s, last>>
\* success is said of nothing that was lost
NotLost == [][LET o == last'.op IN ("lost" \in DOMAIN o /\ last'.r.st = 0) => o.op \in {"fields", "prefix", "inner"}]_<<s, last>>
=============================================================================
