------------------------------- MODULE DiffMC -------------------------------
(***************************************************************************)
(* All contents up to a length, built token by token, and the laws of the   *)
(* versions of each.                                                       *)
(***************************************************************************)
EXTENDS Diff, Json
CONSTANTS MaxLen, MaxDepth
VARIABLES s, last
Kinds == {"common", "delete", "insert"}
Id(n) == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k">>[n + 1]
OpsOf(st) ==
    LET n == Len(st.toks) IN
    IF n + Len(st.stack) >= MaxLen THEN (IF st.stack = <<>> THEN {} ELSE {[op |-> "tok", tok |-> <<st.stack[Len(st.stack)]>>]})
    ELSE {[op |-> "tok", tok |-> x] : x \in
            \* text only where it is not next to text
            (IF n > 0 /\ st.toks[n][1] = "t" THEN {} ELSE {<<"t", Id(n)>>})
            \cup (IF Len(st.stack) < MaxDepth THEN {<<"s", Id(n), "">>} \cup {<<"d", k>> : k \in Kinds} ELSE {})
            \cup (IF st.stack = <<>> THEN {} ELSE {<<st.stack[Len(st.stack)]>>})}
BResults(st, e) == {[s |-> [toks |-> Append(st.toks, e.tok),
                            stack |-> CASE e.tok[1] = "s" -> Append(st.stack, "e") [] e.tok[1] = "d" -> Append(st.stack, "/d")
                                        [] e.tok[1] \in {"e", "/d"} -> SubSeq(st.stack, 1, Len(st.stack) - 1) [] OTHER -> st.stack], r |-> 0]}
INSTANCE Explore WITH StartX <- {[toks |-> <<>>, stack |-> <<>>]}, Results <- BResults
View1 == s

Whole == s.stack = <<>>
\* the innermost region around position i, without a stack
Regions(i) == {j \in 1..(i - 1) : s.toks[j][1] = "d" /\ EndOf(s.toks, j) > i}
Innermost(i) == IF Regions(i) = {} THEN "common" ELSE s.toks[CHOOSE j \in Regions(i) : \A k \in Regions(i) : k <= j][2]
Plain(i) == s.toks[i][1] \in {"t", "s"}
V(r) == Version(s.toks, r)
NoTrace == \A r \in {"0", "1"} : \A i \in 1..Len(V(r)) : V(r)[i][1] \notin {"d", "/d"}
\* every token is in the version it belongs to, once, and in no other (tokens have distinct names)
Places(tok, seq) == Cardinality({i \in 1..Len(seq) : seq[i] = tok})
Belongs == Whole => \A i \in 1..Len(s.toks) : Plain(i) =>
               /\ Places(s.toks[i], V("0")) = IF Innermost(i) \in {"common", "delete"} THEN 1 ELSE 0
               /\ Places(s.toks[i], V("1")) = IF Innermost(i) \in {"common", "insert"} THEN 1 ELSE 0
\* in the order of the document
Names(seq) == SelectSeq(seq, LAMBDA tok : tok[1] \in {"t", "s"})
Ordered == \A r \in {"0", "1"} : Names(V(r)) = SelectSeq(Names(s.toks), LAMBDA tok : Places(tok, V(r)) > 0)
\* in the elements around it that are in the version as well
Around(seq, i) == {seq[j][2] : j \in {k \in 1..(i - 1) : seq[k][1] = "s" /\ EndOf(seq, k) > i}}
NamesOf(seq) == {seq[j][2] : j \in {k \in 1..Len(seq) : seq[k][1] = "s"}}
Nested == Whole => \A r \in {"0", "1"} : \A i \in 1..Len(s.toks) : \A k \in 1..Len(V(r)) :
               (Plain(i) /\ V(r)[k] = s.toks[i]) => Around(V(r), k) = Around(s.toks, i) \cap NamesOf(V(r))
\* elements are complete
Balanced == Whole => \A r \in {"0", "1"} : /\ Depth(V(r), Len(V(r))) = 0
                                          /\ \A i \in 1..Len(V(r)) : Depth(V(r), i) >= 0
\* a version has a single version, and without a selection all is as it is
Idempotent == \A r \in {"0", "1"} : \A q \in {"none", "0", "1"} : Version(V(r), q) = V(r)
AsItIs == V("none") = s.toks
\* both versions together have the whole text
Complete == Whole => \A i \in 1..Len(s.toks) : s.toks[i][1] = "t" => (Innermost(i) = "common" <=> (Places(s.toks[i], V("0")) = 1 /\ Places(s.toks[i], V("1")) = 1))
=============================================================================
