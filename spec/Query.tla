------------------------------- MODULE Query -------------------------------
(***************************************************************************)
(* What the client does with srcML documents: a list of transformations is *)
(* applied to every unit of every input, and the results, in the order of  *)
(* the units, are a document, or lines of text; facts about a document are *)
(* shown; and units are shown with or without their tags.                  *)
(*                                                                         *)
(* s.t: the given documents, and facts about texts (number of lines, ends  *)
(* in a newline).  s.d: the document made last.                            *)
(***************************************************************************)
EXTENDS Transform

Src == "http://www.srcML.org/srcML/src"
NoDoc == [form |-> "none", url |-> "-", ns |-> <<>>, us |-> <<>>]
NormDoc(d) == [d EXCEPT !.us = [i \in 1..Len(d.us) |-> Norm(d.us[i])]]
Readable(d) == d.form \in {"solitary", "archive"}

At1(u, a) == IF Has(u[1][3], a) THEN Value(u[1][3], a) ELSE "-"
Fact(t, x) == IF x \in DOMAIN t.text THEN t.text[x] ELSE [loc |-> 1, nl |-> FALSE]
Lines(t, u) == Fact(t, Join(u)).loc
Newline(t, x) == Fact(t, x).nl

\* ------------------------------------------------------------------ the list of transformations
Plain == {"sel", "text", "at", "count", "has", "str"}
RECURSIVE AppendAll(_, _)
AppendAll(q, ts) == IF ts = <<>> THEN q ELSE AppendAll(Append1(q, ts[1]), Tail(ts))

\* ------------------------------------------------------------------ applying it
Pick(us, n) == IF n = 0 THEN us ELSE <<us[n]>>
RECURSIVE UnitsOf(_, _)
UnitsOf(ds, n) == IF ds = <<>> THEN <<>> ELSE Pick(ds[1].us, n) \o UnitsOf(Tail(ds), n)

Scalars == {"NUMBER", "BOOLEAN", "STRING"}
Line(t, o) == CASE o.type = "BOOLEAN" -> IF o.v = "1" THEN "true\n" ELSE "false\n"
                [] o.type = "NUMBER" -> o.v \o "\n"
                [] o.type = "STRING" -> o.v \o (IF Newline(t, o.v) THEN "" ELSE "\n")
                [] OTHER -> ""
RECURSIVE Glue(_)
Glue(q) == IF q = <<>> THEN "" ELSE q[1] \o Glue(Tail(q))
\* a unit in a document has a language
Lang(u) == IF Has(u[1][3], "language") THEN u ELSE <<<<"s", "unit", u[1][3] \cup {<<"language", "">>}>>>> \o Tail(u)

Applied(ts, u) == IF ts = <<>> THEN [type |-> "UNITS", v |-> "-", units |-> <<u>>] ELSE Outcome(Pipeline(ts, u), u)

TransformDocs(t, ds, e) ==
    LET ts == AppendAll(<<>>, e.ts)
        us == UnitsOf(ds, e.n)
        os == [i \in 1..Len(us) |-> Applied(ts, us[i])]
        out == Concat([i \in 1..Len(os) |-> [j \in 1..Len(os[i].units) |-> Lang(os[i].units[j])]])
        text == Glue([i \in 1..Len(os) |-> Line(t, os[i])])
        one == Len(ds) = 1 /\ (ds[1].form = "solitary" \/ e.n > 0) /\ \A i \in 1..Len(e.ts) : e.ts[i].t \notin Plain
    IN IF text # "" THEN [form |-> "text", text |-> text]
       ELSE IF out = <<>> /\ one THEN [form |-> "bare"]
       ELSE IF one /\ Len(out) = 1 THEN [form |-> "solitary", url |-> (IF ds[1].form = "solitary" THEN ds[1].url ELSE "-"), us |-> out]
       ELSE [form |-> "archive", url |-> "-", us |-> out]

\* ------------------------------------------------------------------ what is shown
Listed(t, d) == [enc |-> "UTF-8",
                 rows |-> [i \in 1..Len(d.us) |-> LET V(a) == IF Has(d.us[i][1][3], a) THEN Value(d.us[i][1][3], a) ELSE ""
                                                  IN [lang |-> V("language"), loc |-> Lines(t, d.us[i]), hash |-> V("hash"), name |-> V("filename")]],
                 units |-> Len(d.us), loc |-> LET RECURSIVE Sum(_) Sum(i) == IF i = 0 THEN 0 ELSE Lines(t, d.us[i]) + Sum(i - 1) IN Sum(Len(d.us))]
Info(d, long) == LET one == d.form = "solitary" IN
    [ns |-> d.ns, enc |-> "UTF-8", lang |-> IF one THEN At1(d.us[1], "language") ELSE "-", url |-> d.url,
     name |-> IF one THEN At1(d.us[1], "filename") ELSE "-", units |-> IF long THEN ToString(Len(d.us)) ELSE "-"]
Count(d) == Cardinality({i \in 1..Len(d.us) : Has(d.us[i][1][3], "language")})

Heads == <<"encoding", "url">>
Bodies == <<"filename", "language", "version", "hash", "timestamp">>
Among(q, F) == SelectSeq(q, LAMBDA x : x \in F)
\* a field alone is shown as its value, and not at all without one
Show(F, q, V(_)) == IF Len(q) = 1 /\ V(q[1]) = "-" THEN <<>>
                    ELSE [i \in 1..Len(q) |-> LET v == IF V(q[i]) = "-" THEN "" ELSE V(q[i])
                                              IN IF Cardinality(F) = 1 THEN v ELSE q[i] \o "=\"" \o v \o "\""]
Fields(d, F, n) ==
    LET head == Show(F, Among(Heads, F), LAMBDA x : IF x = "encoding" THEN "UTF-8" ELSE d.url)
        us == IF n = 0 THEN d.us ELSE IF n > Len(d.us) THEN <<>> ELSE <<d.us[n]>>
    IN head \o Concat([i \in 1..Len(us) |-> Show(F, Among(Bodies, F), LAMBDA x : At1(us[i], x))])
PrefixOf(d, uri) == LET I == {i \in 1..Len(d.ns) : d.ns[i][2] = uri} IN IF I = {} THEN "" ELSE d.ns[CHOOSE i \in I : TRUE][1] \o "\n"

\* adjacent texts are one
RECURSIVE Merge(_)
Merge(q) == IF Len(q) < 2 THEN q
            ELSE IF q[1][1] = "t" /\ q[2][1] = "t" THEN Merge(<<<<"t", q[1][2] \o q[2][2]>>>> \o SubSeq(q, 3, Len(q)))
            ELSE <<q[1]>> \o Merge(Tail(q))
Inside(t, u) == LET c == SubSeq(u, 2, Len(u) - 1)
                IN c \o (IF c = <<>> \/ (c[Len(c)][1] = "t" /\ Newline(t, c[Len(c)][2])) THEN <<>> ELSE <<<<"t", "\n">>>>)

\* ------------------------------------------------------------------ operations
DocOf(s, i) == IF i = 0 THEN s.d ELSE NormDoc(s.t.docs[i])
InRange(ds, n) == n = 0 \/ \A i \in 1..Len(ds) : n <= Len(ds[i].us)

\* without units there is nothing that could be transformed, and that is reported
Possible(ds, n) == InRange(ds, n) /\ \A i \in 1..Len(ds) : ds[i].us # <<>>

Delivered(s, e) ==
    LET d == DocOf(s, e.in[1])
        ds == [i \in 1..Len(e.in) |-> DocOf(s, e.in[i])]
        Same(r) == {[s |-> s, r |-> r]}
        Every(V(_)) == Same([st |-> 0, all |-> [i \in 1..Len(ds) |-> V(ds[i])]])
    \* e.doc: what was made of source files (Client.tla decides that it is right); transforming these files is transforming it
    IN CASE e.op = "make" -> {[s |-> [s EXCEPT !.d = NormDoc(e.doc)], r |-> [st |-> 0]]}
         [] e.op = "transform" ->
              IF ~Possible(ds, e.n) THEN Same([st |-> 1])
              ELSE LET o == TransformDocs(s.t, ds, e)
                   IN {[s |-> [s EXCEPT !.d = IF Readable(o) THEN [form |-> o.form, url |-> o.url, ns |-> e.ns, us |-> o.us] ELSE NoDoc],
                        r |-> [st |-> 0, doc |-> o]]}
         [] e.op = "list"  -> Every(LAMBDA x : Listed(s.t, x))
         [] e.op = "info"  -> Every(LAMBDA x : Info(x, e.long))
         [] e.op = "count" -> Every(LAMBDA x : ToString(Count(x)) \o "\n")
         [] e.op = "fields" -> Same([st |-> 0, lines |-> Concat([i \in 1..Len(ds) |-> Fields(ds[i], AsSet(e.fs), e.n)])])
         [] e.op = "prefix" -> Same([st |-> 0, text |-> Glue([i \in 1..Len(ds) |-> PrefixOf(ds[i], e.uri)])])
         [] e.op = "outer" -> Same(IF ~Possible(ds, e.n) THEN [st |-> 1] ELSE [st |-> 0, us |-> Pick(d.us, e.n)])
         [] e.op = "inner" -> Same(IF ~Possible(ds, e.n) THEN [st |-> 1] ELSE [st |-> 0, ev |-> Merge(Concat([i \in 1..Len(Pick(d.us, e.n)) |-> Inside(s.t, Pick(d.us, e.n)[i])]))])
         [] OTHER -> {}

\* nothing is shown where there is nothing to show
Silent(r) == \/ "lines" \in DOMAIN r /\ r.lines = <<>>
             \/ "text" \in DOMAIN r /\ r.text = ""
             \/ "ev" \in DOMAIN r /\ r.ev = <<>>
             \/ "all" \in DOMAIN r /\ r.all = <<>>
\* an output that cannot be written is reported, whatever it was to be
QResults(s, e) ==
    IF "lost" \notin DOMAIN e THEN Delivered(s, e)
    ELSE UNION {{[s |-> s, r |-> [st |-> st]]
                 : st \in IF x.r.st = 0 /\ Silent(x.r) THEN {0, 1} ELSE {1}} : x \in Delivered(s, e)}
=============================================================================
