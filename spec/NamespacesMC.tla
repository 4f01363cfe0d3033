---------------------------- MODULE NamespacesMC ----------------------------
EXTENDS Namespaces, TLC
CONSTANT MaxDepth
VARIABLES s, last
StartX == {Fresh}
OpsOf(st) == {[op |-> "reg", p |-> p, u |-> u] : p \in {"", "p", "cpp"}, u \in {Src, Cpp, Pos, "urn:a", "urn:b"}}
             \cup {[op |-> "reg", p |-> None, u |-> "urn:a"], [op |-> "reg", p |-> "p", u |-> None], [op |-> "pos"]}
X == INSTANCE Explore
Spec == X!Spec
Emit == X!Emit
View1 == s
Bound == TLCGet("level") <= MaxDepth
\* one entry per URI; src always present; lookups agree with each other
Consistent == /\ \A i, j \in 1..Len(s.ns) : s.ns[i][2] = s.ns[j][2] => i = j
              /\ Known(s.ns, Src)
              /\ \A i \in 1..Len(s.ns) : /\ PrefixOf(s.ns, s.ns[i][2]) = s.ns[i][1]
                                         /\ s.ns[i][2] \in UrisOf(s.ns, s.ns[i][1])
              /\ At(s.ns, Len(s.ns)) = <<None, None>>
\* where the prefixes of standard namespaces are distinct a tag of a document declares a prefix once, and the prefix of
\* a standard namespace is that namespace wherever it is used
Distinct == \A u, v \in StdURI : u # v => Prefixes(s.ns)[u] # Prefixes(s.ns)[v]
AllUsed == {{}, {Cpp}, {Cpp, Omp}}
Scope(D, i, p) == LET own == {d \in D[i] : d[1] = p} IN IF own # {} THEN own ELSE {d \in D[1] : d[1] = p}
Documents == Distinct =>
    \A sol \in BOOLEAN : \A used \in [1..(IF sol THEN 1 ELSE 2) -> AllUsed] :
        LET e == [solitary |-> sol, used |-> used]
            D == Declared(s, e)
        IN /\ \A i \in 1..Len(D) : \A x, y \in D[i] : x[1] = y[1] => x = y
           /\ \A i \in 1..Len(used) : \A m \in Marks(s, [e EXCEPT !.used = <<used[i]>>]) : Scope(D, IF sol THEN 1 ELSE i + 1, m[1]) = {m}
           \* every namespace the user registered is declared, unless another one has its prefix
           /\ \A i \in 1..Len(s.ns) : s.ns[i][2] \notin StdURI /\ (\A u \in InForce(s, {}) \ {s.ns[i][2]} : Prefixes(s.ns)[u] # s.ns[i][1])
                                        => \/ s.ns[i] \in D[1]
                                           \/ sol /\ \E u \in used[1] : Prefixes(s.ns)[u] = s.ns[i][1]
\* an operation moves at most one entry, the last registration is the one found
Last == [][LET o == last'.op IN
             o.op = "reg" => IF last'.r = "OK" THEN /\ PrefixOf(s'.ns, o.u) = o.p
                                                    /\ \A u \in {s.ns[i][2] : i \in 1..Len(s.ns)} \ {o.u} : PrefixOf(s'.ns, u) = PrefixOf(s.ns, u)
                                                    /\ Len(s'.ns) \in {Len(s.ns), Len(s.ns) + 1}
                             ELSE s' = s]_<<s, last>>
=============================================================================
