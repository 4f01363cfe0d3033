----------------------------- MODULE OneCallMC ------------------------------
EXTENDS OneCall, Json
CONSTANT Mode
VARIABLES s, last
StartX == {Init1}
G(e) == [h |-> "g"] @@ e
Str(f, V) == {G([op |-> "str", f |-> f, v |-> v]) : v \in V}
Bits == {<<2>>, <<2, 4>>}
Sets == CASE Mode = "lang" -> Str("lang", {None, "C++", "xml", "Klingon"}) \cup Str("file", {None, "n"})
                               \cup {[op |-> "ext", x |-> x, lang |-> l] : x \in {"q", "xml", "c"}, l \in {"Java", "Klingon"}}
          [] Mode = "opts" -> {G([op |-> "opts", bits |-> b]) : b \in Bits \cup {<<>>, <<1, 6>>}} \cup {G([op |-> "enable", bits |-> <<3>>])} \cup {G([op |-> "disable", bits |-> <<2>>])}
                               \cup {G([op |-> "tabs", n |-> n]) : n \in {2, 8}} \cup {G([op |-> "ns", p |-> "s", u |-> u]) : u \in {SrcURI, "urn:a"}}
          [] Mode = "enc" -> Str("srcenc", {None, "UTF-8"}) \cup Str("xmlenc", {None, "UTF-16"}) \cup {G([op |-> "eol", n |-> n]) : n \in {0, 3, 4}}
                             \cup {G([op |-> "rev", n |-> n]) : n \in {0, 1, 5}}
          [] OTHER -> Str("url", {None, "u"}) \cup Str("version", {None, "v"}) \cup Str("time", {None, "t"}) \cup {G([op |-> "pi", t |-> t, d |-> "d"]) : t \in {None, "t"}}
Exts == IF Mode = "lang" THEN {"c", "cpp", "xml", "XML", "srcml", "q", "-"} ELSE {"c", "xml"}
Conv(st) == {[op |-> "convert", ext |-> x, bad |-> b, with |-> [g |-> st.g, ext |-> st.ext, dir |-> Dir(st, x)], step |-> <<"OK", "the steps">>] :
                x \in Exts, b \in {None} \cup (IF Mode = "lang" THEN {"in", "out"} ELSE {})}
OpsOf(st) == Sets \cup Conv(st) \cup {[op |-> "apart"]}
X == INSTANCE Explore WITH Results <- XResults
Spec == X!Spec
Emit == X!Emit
View1 == s
\* a conversion changes no setting, and succeeds only where a direction is known
Persistent == [][last'.op.op = "convert" => s' = s /\ (last'.r.st = "OK" => Dir(s, last'.op.ext) # "none")]_<<s, last>>
\* what is not a language cannot be an extension's
Sane == \A i \in 1..Len(s.ext) : s.ext[i][2] \in Known
=============================================================================
