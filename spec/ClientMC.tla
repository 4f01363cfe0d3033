------------------------------ MODULE ClientMC ------------------------------
\* one or two inputs of every kind with every option, and everything that can be done with the document
EXTENDS Client, Json
CONSTANT Pairs                \* options with which two inputs are combined
VARIABLES s, last
Data == {"k" \o ToString(i) : i \in 1..9}
T == [file |-> [x \in {"a.c", "b.cpp", "g.java", "g.zzz", "n.java"} |-> [ext |-> CASE x = "a.c" -> "c" [] x = "b.cpp" -> "cpp" [] x = "g.zzz" -> "zzz" [] OTHER -> "java", bare |-> x, hid |-> FALSE]]
              @@ [x \in {"in", "d", "e", "sub", "d.c", "p", "@", "noext"} |-> [ext |-> IF x = "d.c" THEN "c" ELSE "", bare |-> x, hid |-> FALSE]]
              @@ [x \in {".h.c", ".hid"} |-> [ext |-> IF x = ".h.c" THEN "c" ELSE "hid", bare |-> x, hid |-> TRUE]]
              @@ [x \in {"g.java.gz", "g.zzz.gz"} |-> [ext |-> "gz", bare |-> IF x = "g.java.gz" THEN "g.java" ELSE "g.zzz", hid |-> FALSE]]
              @@ [x \in {"v.java.gz"} |-> [ext |-> "gz", bare |-> "v.java", hid |-> FALSE]] @@ [x \in {"v.java"} |-> [ext |-> "java", bare |-> "v.java", hid |-> FALSE]]
              @@ [x \in {"v.tar.gz"} |-> [ext |-> "gz", bare |-> "v.tar", hid |-> FALSE]]
              @@ [x \in {"u.zzz", "m.c", "t.tar", "x.xml"} |-> [ext |-> CASE x = "u.zzz" -> "zzz" [] x = "m.c" -> "c" [] x = "x.xml" -> "xml" [] OTHER -> "tar", bare |-> x, hid |-> FALSE]],
      \* the order of bytes: "-" before "." before "/"
      rank |-> [x \in {"in/d/a.c"} |-> 1] @@ [x \in {"in/d/b.cpp"} |-> 2] @@ [x \in {"in/d/d.c/noext"} |-> 3] @@ [x \in {"in/d/g.java.gz"} |-> 4] @@ [x \in {"in/d/g.zzz"} |-> 5]
              @@ [x \in {"in/d/sub/a.c"} |-> 6] @@ [x \in {"in/d/x.xml"} |-> 7],
      body |-> [d \in Data |-> [l \in {"C", "C++", "Java", "C#"} |-> [m \in {"", "cit4"} |-> l \o m \o ":" \o d]]],
      utf |-> [d \in Data |-> d], nil |-> <<"k5">>]

In(x) == <<"in", x>>
E(k, p, d) == [k |-> k, p |-> p, d |-> d]
U(name, l, d) == [name |-> name, ver |-> None, lang |-> l, data |-> d, body |-> "plain:" \o d, hash |-> "none"]
Two == [form |-> "archive", units |-> <<U(<<".", "p", ".", "a.c">>, "C", "k6"), [U(<<>>, "C++", "k7") EXCEPT !.hash = "feed"]>>]
Items == {E("file", In("a.c"), "k1"), E("file", <<".", "in", "b.cpp">>, "k2"), E("file", In("m.c"), None), E("file", In("u.zzz"), "k3"),
          E("gz", In("g.java.gz"), "k4"), E("gz", In("g.zzz.gz"), "k5"), [k |-> "gz", p |-> In("v.java.gz"), d |-> "k4", bad |-> 1],
          [k |-> "tar", p |-> In("v.tar.gz"), d |-> "", ents |-> <<E("file", <<"p", "a.c">>, "k8")>>, bad |-> 512],
          [k |-> "dir", p |-> In("d"), ents |-> <<E("file", <<"x.xml">>, "k1"), E("file", <<"sub", "a.c">>, "k2"), E("file", <<"a.c">>, "k3"), E("file", <<".h.c">>, "k4"), E("file", <<".hid", "a.c">>, "k5"),
                                                E("gz", <<"g.java.gz">>, "k6"), E("file", <<"b.cpp">>, "k7"), E("tar", <<"t.tar">>, "k8"), E("file", <<"g.zzz">>, "k9"), E("file", <<"d.c", "noext">>, "k1")>>],
          [k |-> "dir", p |-> In("e"), ents |-> <<>>],
          [k |-> "tar", p |-> In("t.tar"), d |-> "", ents |-> <<E("file", <<"p", "a.c">>, "k8"), E("file", <<".h.c">>, "k1"), E("file", <<"g.zzz">>, "k2"), E("file", <<"b.cpp">>, "k3")>>],
          [k |-> "text", ds |-> <<"k1">>], [k |-> "text", ds |-> <<"k2", "k3">>], [k |-> "stdin", ds |-> <<"k9">>],
          [k |-> "srcml", doc |-> Two], [k |-> "srcml", doc |-> [form |-> "solitary", units |-> <<U(<<"p", "a.c">>, "C", "k8")>>]],
          [k |-> "srcml", doc |-> [form |-> "missing"]], [k |-> "srcml", doc |-> [form |-> "archive", units |-> <<>>]],
          [k |-> "list", d |-> "", lines |-> <<E("blank", <<>>, ""), E("file", In("a.c"), "k1"), E("comment", <<>>, ""), E("file", In("m.c"), None), E("gz", In("g.java.gz"), "k4"),
                                               [k |-> "srcml", doc |-> Two], E("file", In("b.cpp"), "k2")>>],
          [k |-> "list", d |-> "", lines |-> <<E("file", In("a.c"), "k1"), [k |-> "srcml", doc |-> [form |-> "missing"]], E("file", In("b.cpp"), "k2")>>],
          [k |-> "list", d |-> None, lines |-> <<>>], [k |-> "list", d |-> "", lines |-> <<>>]}
Opt == [lang |-> None, reg |-> <<>>, name |-> <<>>, url |-> None, r |-> FALSE, hash |-> FALSE, verbose |-> FALSE, dir |-> FALSE]
SetOpt == Opt @@ [more |-> [ver |-> "1<2", tabs |-> "4", cpp |-> TRUE, if0 |-> TRUE, els |-> FALSE, enc |-> "UTF-16", decl |-> TRUE, src |-> None, ns |-> <<<<"u", "urn:u">>>>]]
Options == {Opt, [Opt EXCEPT !.lang = "Java"], [Opt EXCEPT !.r = TRUE], [Opt EXCEPT !.verbose = TRUE], [Opt EXCEPT !.hash = TRUE], [Opt EXCEPT !.name = <<"n.java">>],
            [Opt EXCEPT !.reg = <<<<"zzz", "C#">>>>], [Opt EXCEPT !.dir = TRUE], [Opt EXCEPT !.url = "u"], [Opt EXCEPT !.lang = "C#", !.r = TRUE], [Opt EXCEPT !.lang = "C++", !.dir = TRUE],
            SetOpt}
Two2 == {SetOpt} \cup {[Opt EXCEPT !.lang = x] : x \in Pairs} \cup {[Opt EXCEPT !.dir = TRUE, !.lang = x] : x \in Pairs \ {None}}
Op(o, its) == [op |-> "create", o |-> o, ins |-> its]
\* what the command line does not allow, and what differs for reasons that do not matter here
Allowed(e) == LET I == {e.ins[i] : i \in 1..Len(e.ins)} IN
              /\ \A x \in I : /\ x.k = "text" => e.o.lang # None \/ e.o.name # <<>>
                              /\ x.k = "stdin" => e.o.lang # None
                              \* these depend on whether the extension is known as well
                              /\ x.k = "gz" /\ e.o.name # <<>> => e.o.lang = None
                              /\ x.k = "dir" => e.o.url = None
                              /\ e.o.verbose /\ x.k = "file" => e.o.lang = None /\ e.o.name = <<>>
              /\ Len(e.ins) = 2 => e.ins[1].k # "stdin"
              \* settings of sources
              /\ "more" \in DOMAIN e.o => \A x \in I : x.k \in {"file", "gz", "dir", "tar", "stdin"}
Places == {"nodir", "full"}
Creates == {Op(Opt, its) @@ [to |-> x] : x \in Places, its \in {<<E("file", In("a.c"), "k1")>>, <<E("file", In("a.c"), "k1"), E("file", In("b.cpp"), "k2")>>, <<E("file", In("m.c"), None)>>}}
           \cup {Op([Opt EXCEPT !.dir = TRUE], <<E("file", In("a.c"), "k1")>>) @@ [to |-> "nodir"]} \cup {e \in {Op(o, <<i>>) : o \in Options, i \in Items} \cup {Op(o, <<i, j>>) : o \in Two2, i \in Items, j \in Items} : Allowed(e)}
Again == {Op(o, <<[k |-> "doc"]>>) : o \in {x \in Options : x.name = <<>> /\ x.url = None /\ x.reg = <<>> /\ ~x.verbose /\ "more" \notin DOMAIN x}}
Extracts == {[op |-> "extract", how |-> h, n |-> n] : h \in {"stdout", "file"}, n \in {0, 2}} \cup {[op |-> "extract", how |-> h, n |-> 0] : h \in {"dir", "tar"}}
            \cup {[op |-> "extract", how |-> h, n |-> 0, to |-> x] : h \in {"tar", "stdout", "file"}, x \in Places} \cup {[op |-> "extract", how |-> "dir", n |-> 0, to |-> "nodir"]}
            \cup {[op |-> "extract", how |-> h, n |-> 0, eol |-> "crlf"] : h \in {"dir", "tar", "stdout", "file"}}
OpsOf(st) == IF st.form = "missing" THEN Creates ELSE IF st.form = "any" THEN {} ELSE IF Len(UnitsOf(st)) > 3 THEN {x \in Extracts : x.how \in {"dir", "tar"}} ELSE IF st.form \in {"archive", "solitary"} /\ (\E i \in 1..Len(st.units) : st.units[i].ver # None) THEN Extracts ELSE Extracts \cup Again \cup (IF Len(UnitsOf(st)) = 1 THEN {Op(Opt, <<E("file", In("a.c"), "k1"), [k |-> "doc"]>>)} ELSE {})
MResults(st, e) == CResults(T, st, e)
X == INSTANCE Explore WITH StartX <- {Fresh}, Results <- MResults
Spec == X!Spec
Emit == X!Emit
View1 == s
\* every source of a known language is there, by its name and with its content, in the order of the inputs
Complete == [][last'.op.op = "create" /\ ~last'.op.o.dir /\ s'.form \in {"archive", "solitary"} =>
                 LET e == last'.op
                     fs == SelectSeq(e.ins, LAMBDA x : x.k = "file" /\ x.d # None /\ LangOf(e.o, File(T, x.p).ext) # None)
                 IN IF e.o.name # <<>> \/ \E i \in 1..Len(e.ins) : e.ins[i].k \notin {"file"} THEN TRUE
                    ELSE [i \in 1..Len(fs) |-> <<Undot(fs[i].p), fs[i].d>>] = [i \in 1..Len(SelectSeq(s'.units, LAMBDA u : LangOf(e.o, File(T, u.name).ext) # None)) |->
                              LET v == SelectSeq(s'.units, LAMBDA u : LangOf(e.o, File(T, u.name).ext) # None)[i] IN <<v.name, v.data>>]]_<<s, last>>
\* extracting gives back every source, the last of those with the same name, and nothing outside of the directory
Back == Extract(s, [op |-> "extract", how |-> "dir", n |-> 0]).st = 0 => \A u \in ToSet(UnitsOf(s)) : u.name # <<>> /\ ~Outside(u.name) =>
           \E f \in Extract(s, [op |-> "extract", how |-> "dir", n |-> 0]).out : f.p = Below(u.name)
Inside == \A f \in Extract(s, [op |-> "extract", how |-> "dir", n |-> 0]).out : \A i \in 1..Len(f.p) : f.p[i] \notin {"", ".", ".."}
\* making a document of a document keeps everything
Same == \A o \in {Opt} : UnitsOf(s) # <<>> => UnitsOf(Create(T, s, Op(o, <<[k |-> "doc"]>>)).s) = UnitsOf(s)
=============================================================================
