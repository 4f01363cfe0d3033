------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* The command-line client, from inputs to a document and from the         *)
(* document back to sources.  The state is the document on disk; creating  *)
(* replaces it by what all inputs contribute, in their order, whatever the *)
(* number of threads; extracting leaves it as it is.                       *)
(*                                                                         *)
(* Names are sequences of components: "./in/a.c" is <<".", "in", "a.c">>,  *)
(* no name is <<>>.  t has the facts about strings that are needed:        *)
(*   t.file[x]    of a component: extension, the component without that of *)
(*                a compression, and whether it is compressed or hidden    *)
(*   t.rank[p]    place of a path among all paths, byte by byte            *)
(*   t.body[d][l][m] markup of the content d as a source of language l     *)
(*                with the markup options m                                *)
(*   t.utf[d]     the content that the bytes of d are in UTF-8             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

None == "-"
C == {"c", "h", "i"}
CPP == {"cpp", "CPP", "cp", "hpp", "cxx", "hxx", "cc", "hh", "c++", "h++", "C", "H", "tcc", "ii"}
Std == [c \in {"C"} |-> ".c"] @@ [c \in {"C++"} |-> ".cpp"] @@ [c \in {"Java"} |-> ".java"] @@ [c \in {"C#"} |-> ".cs"]

\* a registered extension hides the one of the table, the last registration counts
LangOf(o, x) == LET R == {i \in 1..Len(o.reg) : o.reg[i][1] = x} IN
                IF R # {} THEN o.reg[CHOOSE i \in R : \A j \in R : j <= i][2]
                ELSE CASE x \in C -> "C" [] x \in CPP -> "C++" [] x \in {"java", "aj"} -> "Java" [] x = "cs" -> "C#" [] OTHER -> None

Join(p) == IF p = <<>> THEN "" ELSE FoldLeft(LAMBDA a, x : a \o "/" \o x, p[1], Tail(p))
RECURSIVE Undot(_)
Undot(p) == IF Len(p) > 1 /\ p[1] = "." THEN Undot(Tail(p)) ELSE p
LastOf(p) == p[Len(p)]
File(t, p) == t.file[LastOf(p)]
Plain(t, p) == Front(p) \o <<File(t, p).bare>>         \* without the extension of a compression
Hidden(t, p) == \E i \in 1..Len(p) : t.file[p[i]].hid

\* further settings of a document and its markup, where they are given
More == [ver |-> None, tabs |-> None, cpp |-> FALSE, if0 |-> FALSE, els |-> FALSE, enc |-> "UTF-8", decl |-> TRUE, src |-> None, ns |-> <<>>]
M(o) == IF "more" \in DOMAIN o THEN o.more ELSE More
Mark(o) == (IF M(o).cpp THEN "c" ELSE "") \o (IF M(o).if0 THEN "i" ELSE "") \o (IF M(o).els THEN "e" ELSE "") \o (IF M(o).tabs # None THEN "t" \o M(o).tabs ELSE "")
Options1(o) == (IF M(o).els THEN <<"CPP_TEXT_ELSE">> ELSE <<>>) \o (IF M(o).if0 THEN <<"CPP_MARKUP_IF0">> ELSE <<>>)
\* what the document itself says of them; the version of one source is that of its unit
Settings(o, form) == [enc |-> M(o).enc, decl |-> M(o).decl, ver |-> IF form = "solitary" THEN None ELSE M(o).ver, opts |-> Options1(o), tabs |-> M(o).tabs, ns |-> M(o).ns]

\* ------------------------------------------------------------- creating
Nothing == [units |-> <<>>, err |-> FALSE, list |-> FALSE, go |-> "on"]
Error == [Nothing EXCEPT !.err = TRUE]
Unit(t, o, name, d, l) == LET c == IF M(o).src = "UTF-8" THEN t.utf[d] ELSE d IN
                          [name |-> name, ver |-> M(o).ver, lang |-> l, data |-> c, body |-> t.body[c][l][Mark(o)], hash |-> IF o.hash THEN "new" ELSE "none"]
One(t, o, name, d, l) == [Nothing EXCEPT !.units = <<Unit(t, o, name, d, l)>>]
\* alone: the input may become a unit of its own, so that the name can be given
Named(o, alone, p) == IF alone /\ o.name # <<>> THEN o.name ELSE p

PlainFile(t, o, it, alone) ==
    LET name == Named(o, alone, Undot(it.p))
        \* the given name counts if it has a known extension
        own == LangOf(o, File(t, it.p).ext)
        l == IF o.lang # None THEN o.lang ELSE IF LangOf(o, File(t, name).ext) # None THEN LangOf(o, File(t, name).ext) ELSE own
    IN IF it.d = None THEN Error
       ELSE IF l = None THEN (IF o.verbose THEN Nothing ELSE Error)
       ELSE One(t, o, name, it.d, l)

\* what ends too early is reported; what an archive has before that is there
Damaged(it) == "bad" \in DOMAIN it

Compressed(t, o, it, alone) ==
    LET name == Named(o, alone, Undot(Plain(t, it.p)))
        own == IF LangOf(o, File(t, name).ext) # None THEN LangOf(o, File(t, name).ext) ELSE LangOf(o, File(t, Plain(t, it.p)).ext)
        l == IF LangOf(o, File(t, name).ext) # None /\ o.lang # None THEN o.lang ELSE own
    IN IF it.d = None \/ Damaged(it) THEN Error ELSE IF l = None THEN Nothing ELSE One(t, o, name, it.d, l)

\* a file of a directory or a member of an archive counts only if its language is known
Member(t, o, p, d) == LET l == LangOf(o, File(t, p).ext) IN
                      IF l = None THEN <<>> ELSE <<Unit(t, o, p, d, IF o.lang # None THEN o.lang ELSE l)>>
Concat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

Directory(t, o, it) ==
    LET fs == SelectSeq(it.ents, LAMBDA f : ~Hidden(t, f.p) /\ f.k # "tar")
        sorted == SortSeq(fs, LAMBDA a, b : t.rank[Join(it.p \o a.p)] < t.rank[Join(it.p \o b.p)])
        u(f) == LET p == Undot(it.p \o f.p) IN IF Damaged(f) THEN <<>> ELSE Member(t, o, IF f.k = "gz" THEN Plain(t, p) ELSE p, f.d)
    IN [Nothing EXCEPT !.units = Concat([i \in 1..Len(sorted) |-> u(sorted[i])]), !.err = \E i \in 1..Len(fs) : Damaged(fs[i])]

Tar(t, o, it) == IF it.d = None THEN Error
                 ELSE [Nothing EXCEPT !.units = Concat([i \in 1..Len(it.ents) |-> Member(t, o, it.ents[i].p, it.ents[i].d)]), !.err = Damaged(it)]

Text(t, o, it) == LET l == IF o.lang # None THEN o.lang ELSE LangOf(o, File(t, o.name).ext) IN
                  [Nothing EXCEPT !.units = [i \in 1..Len(it.ds) |-> Unit(t, o, o.name, it.ds[i], l)]]

\* units of srcML keep all they have, except for a language that is asked for
Document(o, d) == CASE d.form = "missing" -> [Error EXCEPT !.go = "stop"]
                    [] d.form \in {"any", "bare", "empty"} \/ d.units = <<>> -> [Error EXCEPT !.go = "fatal"]
                    [] OTHER -> [Nothing EXCEPT !.units = [i \in 1..Len(d.units) |-> IF o.lang = None THEN d.units[i] ELSE [d.units[i] EXCEPT !.lang = o.lang]]]

RECURSIVE Input(_, _, _, _, _)
RECURSIVE All(_, _, _, _, _, _)
\* inputs one after another, until one of them ends it; a list that was looked at makes a document of its own
All(t, o, doc, its, alone, acc) ==
    IF its = <<>> \/ acc.go # "on" THEN acc
    ELSE LET x == Input(t, o, doc, its[1], alone) IN
         All(t, o, doc, Tail(its), alone, [units |-> acc.units \o x.units, err |-> acc.err \/ x.err, list |-> acc.list \/ x.list, go |-> x.go])
Input(t, o, doc, it, alone) ==
    CASE it.k = "file" -> PlainFile(t, o, it, alone)
      [] it.k = "gz" -> Compressed(t, o, it, alone)
      [] it.k = "dir" -> Directory(t, o, it)
      [] it.k = "tar" -> Tar(t, o, it)
      [] it.k \in {"text", "stdin"} -> Text(t, o, it)
      [] it.k = "srcml" -> Document(o, it.doc)
      [] it.k = "doc" -> Document(o, doc)
      [] it.k = "list" -> IF it.d = None THEN [Error EXCEPT !.list = TRUE, !.go = "stop"]
                          ELSE All(t, o, doc, SelectSeq(it.lines, LAMBDA x : x.k \notin {"blank", "comment"}), FALSE, [Nothing EXCEPT !.list = TRUE])

Alone(o, its) == Len(its) = 1 /\ ~o.r /\ its[1].k \notin {"dir", "tar", "list"}
\* what is read from an archive goes to an archive, as do the pieces of a text
Single(doc, it) == CASE it.k = "srcml" -> it.doc.form = "solitary"
                     [] it.k = "doc" -> doc.form = "solitary"
                     [] it.k = "text" -> Len(it.ds) = 1
                     [] OTHER -> TRUE
\* (a document of one unit keeps its own)
Url(o, its) == IF o.url # None THEN o.url
               ELSE IF Len(its) = 1 /\ its[1].k \in {"dir", "tar"} THEN Join(Undot(its[1].p)) ELSE None

\* names below a directory; "." and ".." mean what they mean in paths, and an absolute name is below it as well
RECURSIVE Norm(_, _)
Norm(p, acc) == IF p = <<>> THEN acc
                ELSE IF p[1] \in {"", "."} THEN Norm(Tail(p), acc)
                ELSE IF p[1] # ".." THEN Norm(Tail(p), Append(acc, p[1]))
                ELSE IF acc = <<>> THEN <<"..">> ELSE Norm(Tail(p), Front(acc))
\* (a name of the directory itself is not the name of a file in it)
Outside(p) == Norm(p, <<>>) \in {<<"..">>, <<>>}
Below(p) == Norm(p, <<>>)
\* a file does not become a directory, nor a directory a file: the name that comes later cannot be had
Clash(fs, p) == \E f \in fs : f.p # p /\ (IsPrefix(f.p, p) \/ IsPrefix(p, f.p))
Put(a, p, x) == IF Clash(a.fs, p) THEN [a EXCEPT !.err = TRUE] ELSE [a EXCEPT !.fs = {f \in @ : f.p # p} \cup {[p |-> p, x |-> x]}]
NoFiles == [fs |-> {}, err |-> FALSE]
\* the place for the output cannot be made, or is full
Lost(e) == "to" \in DOMAIN e

\* every unit as a document of its own
Single1(o, its, us) == FoldLeft(LAMBDA a, u : IF u.name = <<>> THEN [a EXCEPT !.err = TRUE]
                                   ELSE Put(a, Below(Front(u.name) \o <<LastOf(u.name) \o ".xml">>), [name |-> Undot(u.name), ver |-> u.ver, lang |-> u.lang, data |-> u.data, body |-> u.body]),
                                NoFiles, us)

Create(t, st, e) ==
    LET alone == Alone(e.o, e.ins)
        o == [e.o EXCEPT !.hash = @ \/ ~alone]
        x == All(t, o, st, e.ins, alone, Nothing)
        files == Single1(o, e.ins, x.units)
        doc == IF (~alone /\ o.name # <<>>) \/ x.go = "fatal" THEN [form |-> "any"]
               ELSE IF o.dir THEN [form |-> "files", files |-> files.fs]
               ELSE IF x.units = <<>> /\ x.err /\ ~x.list THEN [form |-> "empty"]
               ELSE IF alone /\ Single(st, e.ins[1]) THEN (IF x.units = <<>> THEN [form |-> IF M(o).decl THEN "bare" ELSE "empty"] ELSE [form |-> "solitary", units |-> x.units, set |-> Settings(o, "solitary"),
                        url |-> CASE e.ins[1].k = "srcml" -> None [] e.ins[1].k = "doc" -> st.url [] OTHER -> Url(o, e.ins)])
               ELSE [form |-> "archive", url |-> Url(o, e.ins), units |-> x.units, set |-> Settings(o, "archive")]
        bad == doc.form = "any" \/ x.err \/ (o.dir /\ files.err)
    IN IF Lost(e) /\ (~o.dir \/ files.fs # {}) THEN [s |-> st, r |-> [st |-> 1, doc |-> [form |-> "lost"], kept |-> TRUE]]
       ELSE [s |-> IF o.dir \/ Lost(e) THEN st ELSE doc, r |-> [st |-> IF bad THEN 1 ELSE 0, doc |-> IF Lost(e) THEN [form |-> "lost"] ELSE doc, kept |-> TRUE]]

\* ------------------------------------------------------------- extracting
UnitsOf(d) == IF d.form \in {"solitary", "archive"} THEN d.units ELSE <<>>
\* (what is read stays as it is)
Source(x, bad) == [st |-> IF bad THEN 1 ELSE 0, out |-> x, kept |-> TRUE]

Extract(st, e) ==
    LET us == UnitsOf(st)
        named == SelectSeq(us, LAMBDA u : u.name # <<>>)
        files == FoldLeft(LAMBDA a, u : IF Outside(u.name) THEN [a EXCEPT !.err = TRUE] ELSE Put(a, Below(u.name), u.data), NoFiles, named)
        fs == files.fs
        n == e.n
    IN CASE st.form = "missing" -> Source(IF e.how \in {"dir", "here"} THEN {} ELSE <<>>, TRUE)
         [] e.how = "dir" -> Source(fs, files.err)
         \* into the current directory, which is seen below out
         [] e.how = "here" -> Source({[p |-> Tail(f.p), x |-> f.x] : f \in fs}, files.err)
         \* all sources, or the one that is asked for
         [] e.how = "stdout" -> IF n = 0 THEN Source([i \in 1..Len(us) |-> us[i].data], FALSE)
                                ELSE IF n > Len(us) THEN Source(<<>>, TRUE) ELSE Source(<<us[n].data>>, FALSE)
         [] e.how = "file" -> LET k == IF n = 0 THEN 1 ELSE n IN IF k > Len(us) THEN Source(<<>>, TRUE) ELSE Source(<<us[k].data>>, FALSE)
         [] e.how = "tar" -> Source([i \in 1..Len(us) |-> [p |-> IF us[i].name # <<>> THEN us[i].name ELSE <<"srcml_unit_" \o ToString(i) \o Std[us[i].lang]>>, x |-> us[i].data]],
                                    Len(named) # Len(us))

\* when the output is lost; nothing is lost of an empty one
LostExtract(t, st, e) ==
    LET x == Extract(st, e)
        data == IF e.how \in {"stdout", "file"} THEN {x.out[i] : i \in 1..Len(x.out)} ELSE {}
        bad == CASE e.how \in {"dir", "here"} -> x.st = 1 \/ x.out # {}
                 [] e.how \in {"stdout", "file"} -> x.st = 1 \/ e.to = "nodir" \/ Len(x.out) > 1 \/ ~(data \subseteq ToSet(t.nil))
                 [] OTHER -> TRUE
    IN Source(IF e.how \in {"dir", "here"} THEN {} ELSE <<>>, bad)

CResults(t, st, e) ==
    CASE e.op = "create" -> {Create(t, st, e)}
      [] e.op = "extract" -> IF st.form = "any" THEN {[s |-> st, r |-> [any |-> TRUE]]} ELSE {[s |-> st, r |-> IF Lost(e) THEN LostExtract(t, st, e) ELSE Extract(st, e)]}
Fresh == [form |-> "missing"]
=============================================================================
