----------------------------- MODULE Namespaces -----------------------------
(***************************************************************************)
(* The namespaces of an archive: an ordered list of <<prefix, URI>> with   *)
(* one entry for each URI, the lookups over it, the declarations and       *)
(* prefixes of a document written with it, and the list an archive gets    *)
(* from reading that document.                                             *)
(*                                                                         *)
(* Every operation is answered with the complete list and all lookups.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

None == "-"
Src == "http://www.srcML.org/srcML/src"
Cpp == "http://www.srcML.org/srcML/cpp"
Err == "http://www.srcML.org/srcML/error"
Pos == "http://www.srcML.org/srcML/position"
Omp == "http://www.srcML.org/srcML/openmp"

Standard == << <<"", Src>>, <<"cpp", Cpp>>, <<"err", Err>>, <<"pos", Pos>>, <<"omp", Omp>> >>
StdURI == {Standard[i][2] : i \in 1..Len(Standard)}
RootOnly == {Err, Pos}

Fresh == [ns |-> << <<"", Src>> >>, on |-> {}]       \* on: optional namespaces in force by option

Index(ns, u) == CHOOSE i \in 1..Len(ns) : ns[i][2] = u
Known(ns, u) == \E i \in 1..Len(ns) : ns[i][2] = u
Put(ns, p, u) == IF Known(ns, u) THEN [ns EXCEPT ![Index(ns, u)] = <<p, u>>] ELSE Append(ns, <<p, u>>)
PrefixOf(ns, u) == IF Known(ns, u) THEN ns[Index(ns, u)][1] ELSE None
UrisOf(ns, p) == {ns[i][2] : i \in {j \in 1..Len(ns) : ns[j][1] = p}}
At(ns, i) == IF i < Len(ns) THEN ns[i + 1] ELSE <<None, None>>

\* the answer to a look at the archive: list by position (also past the end), prefix of URIs, URI of prefixes
View(ns, e, u4p) == [size |-> Len(ns), at |-> [i \in 1..Len(e.at) |-> At(ns, e.at[i])],
                     p4u |-> [i \in 1..Len(e.uris) |-> PrefixOf(ns, e.uris[i])], u4p |-> u4p]
\* where two URIs share a prefix either is an answer
Choices(ns, ps) == {f \in [1..Len(ps) -> {None} \cup {ns[i][2] : i \in 1..Len(ns)}] :
                      \A i \in 1..Len(ps) : IF UrisOf(ns, ps[i]) = {} THEN f[i] = None ELSE f[i] \in UrisOf(ns, ps[i])}
RECURSIVE Pick(_, _)
Pick(ns, ps) == IF ps = <<>> THEN {<<>>}
                ELSE {<<x>> \o r : x \in (IF UrisOf(ns, Head(ps)) = {} THEN {None} ELSE UrisOf(ns, Head(ps))), r \in Pick(ns, Tail(ps))}

\* ------------------------------------------------------------------ documents
\* all namespaces that could matter for a document
Prefixes(ns) == [u \in StdURI \cup {ns[i][2] : i \in 1..Len(ns)} |->
                   IF Known(ns, u) THEN PrefixOf(ns, u) ELSE Standard[Index(Standard, u)][1]]
\* a source uses a set of standard namespaces
InUse(st, used) == used \cup st.on
RootDecl(st, used) == {Src} \cup (RootOnly \cap st.on) \cup ({st.ns[i][2] : i \in 1..Len(st.ns)} \ StdURI)
InnerDecl(st, used) == (used \cup st.on) \cap {Cpp, Omp}
\* a tag declares a prefix once: a standard namespace in use comes first, otherwise the latest
Rank(ns, u) == IF u \in StdURI THEN Len(ns) + Index(Standard, u) ELSE Index(ns, u)
Wins(ns, E, u) == \A w \in E \ {u} : Prefixes(ns)[w] = Prefixes(ns)[u] => Rank(ns, w) < Rank(ns, u)
InForce(st, used) == RootDecl(st, used) \cup InnerDecl(st, used) \cup st.on
Decls(st, D, used) == {<<Prefixes(st.ns)[u], u>> : u \in {w \in D : Wins(st.ns, InForce(st, used), w)}}
\* units of an archive, or one solitary unit; docs: the set of namespaces each unit uses
Declared(st, e) == IF e.solitary THEN << Decls(st, RootDecl(st, e.used[1]) \cup InnerDecl(st, e.used[1]), e.used[1]) >>
                   ELSE <<Decls(st, RootDecl(st, {}), {})>> \o [i \in 1..Len(e.used) |-> Decls(st, InnerDecl(st, e.used[i]), e.used[i])]
\* prefixes of elements and attributes in the document, by namespace
Marks(st, e) == {<<Prefixes(st.ns)[u], u>> : u \in {Src} \cup UNION {e.used[i] \cap {Cpp, Omp} : i \in 1..Len(e.used)} \cup (st.on \cap {Pos})}

SetOf(q) == {q[i] : i \in 1..Len(q)}
Written(st, e) == [st |-> "OK", decl |-> Declared(st, e), marks |-> Marks(st, e)]

\* reading: every namespace of the root unit is registered in the reader's own list
RECURSIVE PutAll(_, _)
PutAll(ns, q) == IF q = <<>> THEN ns ELSE PutAll(Put(ns, q[1][1], q[1][2]), Tail(q))

Implied(u) == IF u \in {Cpp, Err, Pos} THEN {u} ELSE {}
Reg(st, p, u) == [ns |-> Put(st.ns, p, u), on |-> st.on \cup Implied(u)]

Results(st, e) ==
    CASE e.op = "reg" -> IF e.p = None \/ e.u = None THEN {[s |-> st, r |-> "INVALID_ARGUMENT"]}
                         ELSE {[s |-> Reg(st, e.p, e.u), r |-> "OK"]}
      [] e.op = "look" -> {[s |-> st, r |-> View(st.ns, e, c)] : c \in Pick(st.ns, e.ps)}
      [] e.op = "pos" -> {[s |-> [st EXCEPT !.on = @ \cup {Pos}], r |-> "OK"]}
      \* the declarations as written, in order and with any repetition, are the expected set, each once
      [] e.op = "write" ->
            LET D == Declared(st, [solitary |-> e.solitary, used |-> [i \in 1..Len(e.used) |-> SetOf(e.used[i])]])
                M == Marks(st, [solitary |-> e.solitary, used |-> [i \in 1..Len(e.used) |-> SetOf(e.used[i])]])
                o == e.got
            IN {[s |-> st, r |-> IF /\ Len(o.decl) = Len(D)
                                    /\ \A i \in 1..Len(D) : /\ SetOf(o.decl[i]) = D[i]
                                                         /\ Len(o.decl[i]) = Cardinality({d[1] : d \in D[i]})
                                    /\ SetOf(o.marks) = M
                                 THEN "OK" ELSE "wrong namespaces"]}
      \* list of an archive that read the document just written
      [] e.op = "read" -> {[s |-> st, r |-> PutAll(Fresh.ns, e.root)]}
      [] OTHER -> {}
=============================================================================
