----------------------------- MODULE DiffHistMC -----------------------------
(***************************************************************************)
(* All histories of selecting and asking, for archives of two units.       *)
(***************************************************************************)
EXTENDS Diff, Json
CONSTANTS Handles
VARIABLES s, last
U == [toks |-> <<<<"t", "a">>, <<"d", "delete">>, <<"t", "b">>, <<"/d">>>>, at |-> [filename |-> <<"f", "g">>]]
OpsOf(st) ==
    {[op |-> "set", v |-> v] : v \in {"0", "1", "2"}} \cup {[op |-> "rev"]}
    \cup (IF st.next = 0 THEN {[op |-> "open", units |-> <<U, U>>]} ELSE {[op |-> "read", h |-> h] : h \in Handles} \cup {[op |-> "skip"]})
    \cup {[op |-> o, h |-> h] : o \in {"full", "outer", "inner", "src", "loc", "get", "write", "again"}, h \in {x \in Handles : st.held[x] # 0}}
    \cup {[op |-> "find", n |-> "name", h |-> h] : h \in {x \in Handles : st.held[x] # 0}}
INSTANCE Explore WITH StartX <- {Fresh}, Results <- DResults
View1 == s
\* asking changes nothing
Asking == [][last'.op.op \notin {"set", "open", "read", "skip"} => s' = s]_xvars
\* the answers for a selection do not depend on the history
Same == [][\A h \in Handles : (last'.op.op = "full" /\ last'.op.h = h) =>
              last'.r = [at |-> Attributes(Unit(s, h).at, s.rev), toks |-> Seen(Version(Unit(s, h).toks, s.rev))]]_xvars
=============================================================================
