------------------------------ MODULE DigestMC ------------------------------
EXTENDS Digest, TLC
CONSTANT MaxDepth
VARIABLES s, last
StartX == {Fresh}
Src == {[sha |-> "h1", lines |-> <<0>>], [sha |-> "h2", lines |-> <<3, 0>>], [sha |-> "h3", lines |-> <<3, 2>>]}
OpsOf(st) == {[op |-> "hash", on |-> b] : b \in BOOLEAN} \cup {[op |-> "unit"], [op |-> "clone"], [op |-> "fail"], [op |-> "write"]}
             \cup {[op |-> "parse", sha |-> x.sha, lines |-> x.lines] : x \in Src}
X == INSTANCE Explore
Spec == X!Spec
Emit == X!Emit
View1 == s
Bound == TLCGet("level") <= MaxDepth /\ Len(s.written) <= 2
\* what a unit shows is one of nothing or the hash and count of one source, and never a hash without a parse of it
Own == s.unit.hash # None => \E x \in Src : x.sha = s.unit.hash /\ (s.unit.parsed => s.unit.loc = Loc(x.lines))
\* a hash appears only by a parse with hashing on, and a parse with hashing off leaves none
Rule == [][last'.op.op = "parse" => s'.unit.hash = (IF s.on THEN last'.op.sha ELSE None)]_<<s, last>>
Kept == [][last'.op.op \in {"fail", "write", "hash"} => s'.unit = s.unit]_<<s, last>>
=============================================================================
