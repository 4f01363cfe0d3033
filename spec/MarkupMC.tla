------------------------------ MODULE MarkupMC ------------------------------
(* The machine against a definition of nesting by grammar, and what exact positions imply. *)
EXTENDS Markup
CONSTANTS MaxLen
VARIABLES s, h      \* machine state, tokens taken so far
U == "http://www.srcML.org/srcML/src"
S(n, p, d, cpp) == [k |-> "s", p |-> p, n |-> n, a |-> <<>>, d |-> d, ps |-> None, pe |-> None, cpp |-> cpp]
T(u) == [k |-> "t", x |-> "", y |-> "", u |-> u]
Toks == {S("unit", "", << <<"", U>> >>, FALSE), S("a", "", <<>>, FALSE), S("b", "q", <<>>, FALSE), S("comment", "", <<>>, FALSE),
         S("b", "q", << <<"q", "urn">> >>, FALSE),
         [k |-> "e", p |-> "", n |-> "unit"], [k |-> "e", p |-> "", n |-> "a"], [k |-> "e", p |-> "q", n |-> "b"], [k |-> "e", p |-> "", n |-> "comment"],
         T(<< <<"o", 2>> >>), T(<< <<"n", 1>> >>), T(<< <<"t", 1>>, <<"o", 1>> >>)}
Init == s = Start0(4, "no") /\ h = <<>>
Next == /\ s.err = "" /\ Len(h) < MaxLen
        /\ \E t \in Toks : s' = Step(s, t) /\ h' = Append(h, t)
Spec == Init /\ [][Next]_<<s, h>>

\* grammar: Content = (Text | Start Content End)*
RECURSIVE Balanced(_, _, _)
\* the number of tokens of the longest well nested content from i on, given the prefixes declared
Content(q, i, ns) == Balanced(q, i, ns)
Balanced(q, i, ns) ==
    IF i > Len(q) THEN i
    ELSE IF q[i].k = "t" THEN Balanced(q, i + 1, ns)
    ELSE IF q[i].k = "s" /\ (q[i].n # "unit" \/ ns = {}) THEN
         LET ns2 == ns \cup {q[i].d[j][1] : j \in 1..Len(q[i].d)}
             j == IF q[i].p \in ns2 THEN Balanced(q, i + 1, ns2) ELSE 0
         IN IF j > i /\ j <= Len(q) /\ q[j].k = "e" /\ q[j].n = q[i].n THEN Balanced(q, j + 1, ns) ELSE i
    ELSE i
\* a complete document of one solitary unit
Document(q) == /\ q # <<>> /\ q[1].k = "s" /\ q[1].n = "unit"
               /\ \A i \in 2..Len(q) : q[i].k = "s" => q[i].n # "unit"
               /\ Balanced(q, 2, {"", "xml"}) = Len(q)
               /\ q[Len(q)].k = "e" /\ q[Len(q)].n = "unit"
Whole == LET z == Step(s, [k |-> "z", left |-> ""]) IN z.err = ""
NoInner == \A i \in 2..Len(h) : h[i].k = "s" => h[i].n # "unit"
Agrees == (NoInner /\ h # <<>>) => (Document(h) <=> Whole)
\* an element's extent is inside of its parent's unless skipped, extents are ordered
Extents == NoInner => \A i \in 1..Len(s.st) : LET x == s.st[i].x IN x # None => Before(x[1], x[2]) /\ Before(x[2], s.cur)
View1 == <<s, h>>
=============================================================================
