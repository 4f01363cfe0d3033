----------------------------- MODULE Transform -----------------------------
(***************************************************************************)
(* Transformations of units.  An archive holds a list of transformations;  *)
(* applying it to a unit takes the unit through them in the order they     *)
(* were appended, each one to every result of the one before.              *)
(*                                                                         *)
(* A document is a sequence of events: the start of an element with its    *)
(* name and the set of its attributes, text, and the end of an element.    *)
(* Each transformation is a function from a document to a sequence of      *)
(* items (documents, texts, attributes), or to a scalar.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Archives == {"a", "b"}
AsSet(q) == {q[i] : i \in 1..Len(q)}
\* documents come with lists of attributes
Norm(d) == [i \in 1..Len(d) |-> IF d[i][1] = "s" THEN <<"s", d[i][2], AsSet(d[i][3])>> ELSE d[i]]

\* ------------------------------------------------------------------ documents
IsStart(e) == e[1] = "s"
RECURSIVE CloseAt(_, _, _)
CloseAt(d, j, depth) ==
    LET k == IF d[j][1] = "s" THEN depth + 1 ELSE IF d[j][1] = "e" THEN depth - 1 ELSE depth
    IN IF k = 0 THEN j ELSE CloseAt(d, j + 1, k)
Close(d, i) == CloseAt(d, i, 0)
Element(d, i) == SubSeq(d, i, Close(d, i))

\* positions of the elements of that name, in document order
At(d) == [i \in 1..Len(d) |-> i]
Named(d, n) == SelectSeq(At(d), LAMBDA i : d[i][1] = "s" /\ d[i][2] = n)
\* the element an event is directly in
RECURSIVE ParentAt(_, _, _)
ParentAt(d, j, depth) == IF j = 0 THEN 0
    ELSE IF d[j][1] = "e" THEN ParentAt(d, j - 1, depth + 1)
    ELSE IF d[j][1] = "s" THEN IF depth = 0 THEN j ELSE ParentAt(d, j - 1, depth - 1)
    ELSE ParentAt(d, j - 1, depth)
Parent(d, i) == ParentAt(d, i - 1, 0)
Texts(d, n) == SelectSeq(At(d), LAMBDA i : d[i][1] = "t" /\ LET p == Parent(d, i) IN p # 0 /\ d[p][2] = n)
Value(at, a) == (CHOOSE x \in at : x[1] = a)[2]
Has(at, a) == \E x \in at : x[1] = a
RECURSIVE Join(_)
Join(d) == IF d = <<>> THEN "" ELSE (IF d[1][1] = "t" THEN d[1][2] ELSE "") \o Join(Tail(d))
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE q[1] \o Concat(Tail(q))

\* ------------------------------------------------------------------ changes of a document
Put(at, a, v) == IF Has(at, a) THEN {IF x[1] = a /\ x[2] # v THEN <<a, x[2] \o " " \o v>> ELSE x : x \in at} ELSE at \cup {<<a, v>>}
Mark(d, n, v) == [i \in 1..Len(d) |-> IF d[i][1] = "s" /\ d[i][2] = n THEN <<"s", n, Put(d[i][3], "m:mk", v)>> ELSE d[i]]
\* every element of that name is put into a new one; for the root the content is
Wrap(d, n, w, at) ==
    LET ws == << <<"s", "m:" \o w, at>> >>
        we == << <<"e">> >>
        I == AsSet(Named(d, n))
        C == {Close(d, i) : i \in I \ {1}}
        Out(i) == (IF i \in I \ {1} THEN ws ELSE <<>>)
              \o (IF i = Len(d) /\ 1 \in I THEN we ELSE <<>>)
              \o <<d[i]>>
              \o (IF i = 1 /\ 1 \in I THEN ws ELSE <<>>)
              \o (IF i \in C THEN we ELSE <<>>)
    IN Concat([i \in 1..Len(d) |-> Out(i)])
Rename(d, n, to) == [i \in 1..Len(d) |-> IF d[i][1] = "s" /\ d[i][2] = n THEN <<"s", to, d[i][3]>> ELSE d[i]]
SetRoot(d, a, v) == <<<<"s", d[1][2], {x \in d[1][3] : x[1] # a} \cup {<<a, v>>}>>>> \o Tail(d)

\* ------------------------------------------------------------------ one transformation of one document
Doc(d) == [k |-> "doc", d |-> d]
Units(q) == [type |-> IF q = <<>> THEN "NONE" ELSE "UNITS", items |-> q, v |-> "-"]
Scalar(t, v) == [type |-> t, items |-> <<>>, v |-> v]
Nothing == Units(<<>>)

One(t, d) ==
    CASE t.t = "sel"    -> LET q == Named(d, t.n) IN Units([i \in 1..Len(q) |-> Doc(Element(d, q[i]))])
      [] t.t = "text"   -> LET q == Texts(d, t.n) IN Units([i \in 1..Len(q) |-> [k |-> "text", v |-> d[q[i]][2]]])
      [] t.t = "at"     -> LET q == SelectSeq(Named(d, t.n), LAMBDA i : Has(d[i][3], t.a))
                           IN Units([i \in 1..Len(q) |-> [k |-> "at", v |-> t.a \o "=\"" \o Value(d[q[i]][3], t.a) \o "\""]])
      [] t.t = "mark"   -> Units(<<Doc(Mark(d, t.n, t.v))>>)
      [] t.t = "wrap"   -> Units(<<Doc(Wrap(d, t.n, t.w, IF t.v = "-" THEN {} ELSE {<<"m:mk", t.v>>}))>>)
      [] t.t = "count"  -> Scalar("NUMBER", ToString(Len(Named(d, t.n))))
      [] t.t = "has"    -> Scalar("BOOLEAN", IF Named(d, t.n) = <<>> THEN "0" ELSE "1")
      [] t.t = "str"    -> LET q == Named(d, t.n) IN Scalar("STRING", IF q = <<>> THEN "" ELSE Join(Element(d, q[1])))
      [] t.t = "copy"   -> Units(<<Doc(d)>>)
      [] t.t = "rename" -> Units(<<Doc(Rename(d, t.n, t.to))>>)
      [] t.t = "each"   -> LET q == Named(d, t.n) IN Units([i \in 1..Len(q) |-> Doc(Element(d, q[i]))])
      [] t.t = "drop"   -> Nothing
      [] t.t = "xtext"  -> IF Join(d) = "" THEN Nothing ELSE Scalar("STRING", Join(d))
      [] t.t = "param"  -> Units(<<Doc(SetRoot(d, "p", t.v))>>)
      [] t.t = "rng"    -> IF Named(d, t.n) = <<>> THEN Units(<<Doc(d)>>) ELSE Nothing

\* ------------------------------------------------------------------ the pipeline
\* every item of the step before, in order; the scalar is that of the last of them
RECURSIVE Step(_, _, _)
Step(t, items, acc) ==
    IF items = <<>> THEN [acc EXCEPT !.type = IF acc.items # <<>> THEN "UNITS" ELSE @]
    ELSE LET r == IF items[1].k = "doc" THEN One(t, items[1].d) ELSE Nothing
         IN Step(t, Tail(items), IF r.type = "NONE" THEN acc
                                 ELSE [type |-> r.type, items |-> acc.items \o r.items, v |-> IF r.type = "UNITS" THEN acc.v ELSE r.v])
RECURSIVE Run(_, _)
Run(ts, r) == IF ts = <<>> \/ r.items = <<>> THEN r ELSE Run(Tail(ts), Step(ts[1], r.items, Nothing))
Pipeline(ts, d) == Run(ts, Units(<<Doc(d)>>))

\* ------------------------------------------------------------------ results as units
IsUnit(x) == x.k = "doc" /\ x.d[1][2] = "unit"
\* a result that is a part of the unit is the content of a unit with the attributes of the original and its number
AsUnit(x, i, d) ==
    IF IsUnit(x) THEN x.d
    ELSE <<<<"s", "unit", {a \in d[1][3] : a[1] \notin {"hash", "item"}} \cup {<<"item", ToString(i)>>}>>>>
         \o (IF x.k = "doc" THEN x.d ELSE IF x.v = "" THEN <<>> ELSE <<<<"t", x.v>>>>) \o <<<<"e">>>>
Outcome(r, d) == [type |-> r.type, v |-> IF r.type \in {"NONE", "UNITS"} THEN "-" ELSE r.v,
                  units |-> IF r.type = "UNITS" THEN [i \in 1..Len(r.items) |-> AsUnit(r.items[i], i, d)] ELSE <<>>]

\* ------------------------------------------------------------------ operations
\* s.tr: the transformations of each archive.  s.docs: the units, in the order read.
\* s.part: units that were replaced by a part of one
InitT(docs) == [tr |-> [h \in Archives |-> <<>>], docs |-> [i \in 1..Len(docs) |-> Norm(docs[i])], part |-> {}]

\* an attribute for the XPath just appended, when that has none, is one more thing it does
Append1(q, t) ==
    IF t.t = "mark" /\ q # <<>> /\ LET l == q[Len(q)] IN (l.t = "sel" \/ (l.t = "wrap" /\ l.v = "-")) /\ l.n = t.n
    THEN LET l == q[Len(q)] IN [q EXCEPT ![Len(q)] = IF l.t = "sel" THEN t ELSE [l EXCEPT !.v = t.v]]
    ELSE Append(q, t)

Apply(s, h, u) ==
    IF s.tr[h] = <<>> THEN [status |-> "OK", type |-> "-"]
    ELSE LET o == Outcome(Pipeline(s.tr[h], s.docs[u]), s.docs[u])
         IN [status |-> "OK", type |-> o.type, v |-> o.v, units |-> o.units, unit |-> s.docs[u]]

\* without a place for the result it replaces the unit, if it is a single one
Replace(s, h, u) ==
    LET p == Pipeline(s.tr[h], s.docs[u])
    IN IF s.tr[h] = <<>> THEN [s |-> s, r |-> [status |-> "OK", unit |-> s.docs[u]]]
       ELSE IF p.type # "UNITS" \/ Len(p.items) # 1 THEN [s |-> s, r |-> [status |-> "ERROR", unit |-> s.docs[u]]]
       ELSE LET n == AsUnit(p.items[1], 1, s.docs[u])
            IN [s |-> [s EXCEPT !.docs[u] = n, !.part = IF IsUnit(p.items[1]) THEN @ ELSE @ \cup {u}],
                r |-> [status |-> "OK", unit |-> n]]

TResults(s, e) ==
    CASE e.op = "append"  -> {[s |-> [s EXCEPT !.tr[e.h] = Append1(@, e.x)], r |-> "OK"]}
      [] e.op = "bad"     -> {[s |-> s, r |-> "INVALID_ARGUMENT"]}
      [] e.op = "param"   -> LET q == s.tr[e.h]
                             IN {IF q = <<>> THEN [s |-> s, r |-> "NO_TRANSFORMATION"]
                                 ELSE [s |-> IF q[Len(q)].t = "param" THEN [s EXCEPT !.tr[e.h][Len(q)].v = e.v] ELSE s, r |-> "OK"]}
      [] e.op = "clear"   -> {[s |-> [s EXCEPT !.tr[e.h] = <<>>], r |-> "OK"]}
      [] e.op = "clone"   -> {[s |-> [s EXCEPT !.tr[e.k] = s.tr[e.h]], r |-> "OK"]}
      [] e.op = "apply"   -> {[s |-> s, r |-> Apply(s, e.h, e.u)]}
      [] e.op = "replace" -> {Replace(s, e.h, e.u)}
      [] OTHER -> {}

\* ------------------------------------------------------------------ properties
WellFormed(d) == Len(d) > 1 /\ IsStart(d[1]) /\ Close(d, 1) = Len(d)
\* what is selected is in the document, unchanged
Complete(d, n) == LET r == One([t |-> "sel", n |-> n], d)
                  IN Len(r.items) = Cardinality({i \in 1..Len(d) : d[i][1] = "s" /\ d[i][2] = n})
\* a pipeline is its first part followed by the rest
Composes(ts, d) == \A i \in 0..Len(ts) : Run(SubSeq(ts, i + 1, Len(ts)), Run(SubSeq(ts, 1, i), Units(<<Doc(d)>>))) = Pipeline(ts, d)
=============================================================================
