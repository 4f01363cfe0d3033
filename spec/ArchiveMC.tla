----------------------------- MODULE ArchiveMC -----------------------------
EXTENDS Archive
CONSTANTS MaxSet, MaxUnits, Mode
VARIABLES s, last

Unset == [form |-> "unset"]
Slots == IF Mode = "read" THEN {"k", "l"} ELSE {"k"}
P(e) == [op |-> "parse", k |-> "k"] @@ e
Parses == { P([lang |-> "C++", file |-> "a<&\">.cpp", ver |-> "-", ts |-> "-", enc |-> "UTF-8", src |-> "p1", sha |-> "sha1", text |-> "t1", content |-> "c1", names |-> "n1"]),
            P([lang |-> "Java", file |-> "-", ver |-> "v'1", ts |-> "now", enc |-> "ISO-8859-1", src |-> "p2", sha |-> "sha2", text |-> "t2", content |-> "c2", names |-> "n2"]) }
Sets == { [f |-> "url", v |-> "u&<\">"], [f |-> "version", v |-> "1 2"], [f |-> "tabs", v |-> "3"], [f |-> "pos", v |-> TRUE], [f |-> "store", v |-> TRUE],
          [f |-> "hash", v |-> FALSE], [f |-> "solitary", v |-> TRUE], [f |-> "decl", v |-> FALSE], [f |-> "enc", v |-> "ISO-8859-1"],
          [f |-> "pi", v |-> <<"t", "d<&>">>], [f |-> "opt", v |-> "CPP_TEXT_ELSE"], [f |-> "opt", v |-> "CPP_MARKUP_IF0"],
          [f |-> "ns", v |-> <<"x", "urn:x&<\">">>] }

RUnit(i, lang) == [language |-> lang, filename |-> "f" \o i, version |-> "-", timestamp |-> "-", hash |-> "-", attrs |-> {<<"a", "b" \o i>>}, content |-> "c" \o i,
                   text |-> "t" \o i, names |-> "n" \o i, rev |-> "1.0.0", url |-> "-", tabs |-> "-", opts |-> {}, senc |-> "-", pos |-> FALSE, ns |-> {}]
RDoc(form, us) == [form |-> form, decl |-> TRUE, enc |-> "UTF-8", pi |-> <<>>, rev |-> "1.0.0", url |-> "-", version |-> "-", opts |-> {}, tabs |-> "-", pos |-> FALSE,
                   ns |-> {}, macros |-> <<>>, attrs |-> IF form = "solitary" THEN us[1].attrs ELSE {}, units |-> us]
Given == [d0 |-> RDoc("archive", <<>>), d1 |-> RDoc("solitary", <<RUnit("s", "C")>>), d3 |-> RDoc("archive", <<RUnit("1", "C"), RUnit("2", "C++"), RUnit("3", "Java")>>)]

StartX == {InitA(IF Mode = "read" THEN Given ELSE [d1 |-> Unset, d2 |-> Unset], Slots)}

Free(st, k) == st.us[k].own = "none"
Differs(w) == Cardinality({f \in DOMAIN Settings : w[f] # Settings[f]})
Fld(x) == CASE x.f = "opt" -> "opts" [] OTHER -> x.f

OpsW(st) ==
    IF st.docs.d2.form # "unset"
    THEN IF st.rd["b"].doc = "-" THEN {[op |-> "ropen", h |-> "b", d |-> "d2"]} ELSE
         IF st.rd["b"].pos < Len(At(st, "b")) /\ Free(st, "k") THEN {[op |-> "read", h |-> "b", k |-> "k"]} ELSE
         IF st.us["k"].own = "b" THEN {[op |-> "ask", k |-> "k", what |-> x] : x \in {"full", "source", "names"}} \cup {[op |-> "free", k |-> "k"]} ELSE
         IF ~Free(st, "k") THEN {[op |-> "free", k |-> "k"]} ELSE {}
    ELSE
    (IF st.open THEN {} ELSE
        (IF st.docs.d1.form = "unset"
         THEN {[op |-> "set", f |-> x.f, v |-> x.v] : x \in {y \in Sets : st.w[Fld(y)] = Settings[Fld(y)] /\ Differs(st.w) < MaxSet
                                                                     /\ (y.f = "decl" => st.w.enc = "UTF-8") /\ (y.f = "enc" => st.w.decl)}}
              \cup (IF Mode = "forms" /\ Differs(st.w) < MaxSet THEN {} ELSE {[op |-> "wopen"]})
         ELSE IF ~st.rd["a"].open THEN {[op |-> "ropen", h |-> "a", d |-> "d1"]}
         ELSE IF st.rd["a"].pos = 0 /\ Free(st, "k") THEN {[op |-> o, h |-> "a"] : o \in {"clone", "fresh"}} \cup {[op |-> "wopen"]} ELSE {}))
    \cup (IF st.open /\ st.docs.d1.form = "unset" /\ Free(st, "k") /\ Len(st.units) < MaxUnits THEN Parses ELSE {})
    \cup (IF st.open /\ ~Free(st, "k") THEN {[op |-> "write", k |-> "k"], [op |-> "free", k |-> "k"]} \cup {[op |-> "ask", k |-> "k", what |-> x] : x \in {"full", "outer"}} ELSE {})
    \cup (IF st.open /\ Free(st, "k") THEN {[op |-> "wclose", d |-> IF st.docs.d1.form = "unset" THEN "d1" ELSE "d2"]} ELSE {})
    \cup (IF st.open /\ st.rd["a"].open /\ Free(st, "k") THEN {[op |-> "read", h |-> "a", k |-> "k"]} ELSE {})
    \cup (IF ~st.open /\ ~Free(st, "k") THEN {[op |-> "free", k |-> "k"]} ELSE {})

OpsR(st) ==
    UNION { (IF st.rd[h].doc = "-" THEN {[op |-> "ropen", h |-> h, d |-> d] : d \in IF h = "a" THEN {"d3"} ELSE {"d0", "d1", "d3"}}
             ELSE {[op |-> "skip", h |-> h]} \cup {[op |-> "read", h |-> h, k |-> k] : k \in {x \in Slots : Free(st, x)}}
                  \cup (IF st.rd[h].open THEN {[op |-> "rclose", h |-> h]} ELSE {})) : h \in Readers }
    \cup UNION { {[op |-> "free", k |-> k]} \cup {[op |-> "ask", k |-> k, what |-> x] : x \in {"attrs", "full", "outer", "inner", "names", "source"}}
                 : k \in {x \in Slots : ~Free(st, x)} }
OpsOf(st) == IF Mode = "read" THEN OpsR(st) ELSE OpsW(st)

Results(st, op) == AResults(st, op)
X == INSTANCE Explore
Spec == X!Spec
Emit == X!Emit
View_ == s
Bound == Len(s.units) <= MaxUnits /\ \A h \in Readers : s.rd[h].doc = "-" \/ s.rd[h].pos <= Len(At(s, h))

Inv == /\ \A d \in DOMAIN s.docs : s.docs[d].form = "unset" \/ Stable(s.docs[d])
       /\ \A h \in Readers : s.rd[h].doc = "-" \/ s.rd[h].pos <= Len(At(s, h))
\* each unit is delivered once and in order; the others stay what they are
Delivery == [][LET o == last'.op IN
                 /\ (o.op \in {"read", "skip"} => \/ s' = s
                                                  \/ /\ s'.rd[o.h].pos = s.rd[o.h].pos + 1
                                                     /\ (o.op = "read" => Core(s'.us[o.k]) = Core(At(s, o.h)[s.rd[o.h].pos + 1]))
                                                     /\ \A k \in Slots : (o.op = "read" /\ k = o.k) \/ s'.us[k] = s.us[k]
                                                     /\ \A h \in Readers \ {o.h} : s'.rd[h] = s.rd[h])
                 /\ (o.op = "ask" => s' = s)
                 /\ (o.op = "wclose" => RightForm(s.w, s'.docs[o.d]) /\ SameUnits(s'.docs[o.d], s.units))]_<<s, last>>
=============================================================================
