------------------------------ MODULE Archive ------------------------------
(***************************************************************************)
(* Archives as values.  A writer turns its settings and the units written  *)
(* to it into a document; a reader gives back the settings of a document   *)
(* and its units, one after the other; a unit, parsed or read, shows the   *)
(* same attributes, markup and source in every form.  What is in a unit    *)
(* (content, text, names) is opaque: it has to come out as it went in.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Readers == {"a", "b"}
\* the revision of what is made by this library
Rev == "1.0.0"
None == [own |-> "none"]
ToSet(q) == {q[i] : i \in 1..Len(q)}

Settings == [url |-> "-", version |-> "-", tabs |-> "8", opts |-> {}, pos |-> FALSE, store |-> FALSE, hash |-> TRUE, solitary |-> FALSE,
             decl |-> TRUE, pi |-> <<>>, ns |-> {}, macros |-> <<>>, rev |-> Rev, attrs |-> {}, enc |-> "UTF-8"]

\* ------------------------------------------------------------------ units
\* what a unit is, whatever archive it is in
Core(u) == [language |-> u.language, filename |-> u.filename, version |-> u.version, timestamp |-> u.timestamp, hash |-> u.hash,
            attrs |-> u.attrs, content |-> u.content, text |-> u.text, names |-> u.names]
\* what its own start tag says besides
Shown(u) == [rev |-> u.rev, url |-> u.url, tabs |-> u.tabs, opts |-> u.opts, senc |-> u.senc]

Parsed(w, e) == [language |-> e.lang, filename |-> e.file, version |-> e.ver, timestamp |-> e.ts, hash |-> IF w.hash THEN e.sha ELSE "-",
                 attrs |-> {}, content |-> e.content, text |-> e.text, names |-> e.names,
                 rev |-> Rev, url |-> w.url, enc |-> e.enc, senc |-> "-", pos |-> w.pos, ns |-> w.ns, own |-> "w",
                 shown |-> [rev |-> Rev, url |-> w.url, tabs |-> IF w.pos THEN w.tabs ELSE "-", opts |-> w.opts, senc |-> IF w.store THEN e.enc ELSE "-"]]

\* a unit of a document
ReadUnit(d, h) == [language |-> d.language, filename |-> d.filename, version |-> d.version, timestamp |-> d.timestamp, hash |-> d.hash,
                   attrs |-> d.attrs, content |-> d.content, text |-> d.text, names |-> d.names,
                   rev |-> IF d.rev = "-" THEN Rev ELSE d.rev, url |-> d.url, enc |-> "UTF-8", senc |-> d.senc, pos |-> d.pos, ns |-> d.ns, own |-> h, shown |-> Shown(d)]

\* a unit in a document of that writer
Written(w, u) == [language |-> u.language, filename |-> u.filename, version |-> u.version, timestamp |-> u.timestamp, hash |-> u.hash,
                  attrs |-> u.attrs, content |-> u.content, text |-> u.text, names |-> u.names,
                  rev |-> IF w.solitary \/ u.rev = "-" THEN w.rev ELSE u.rev,
                  url |-> IF w.solitary THEN u.url ELSE "-",
                  tabs |-> IF w.pos THEN w.tabs ELSE "-",
                  opts |-> IF w.solitary THEN w.opts ELSE {},
                  senc |-> IF u.senc # "-" THEN u.senc ELSE IF w.store THEN u.enc ELSE "-",
                  pos |-> w.pos \/ u.pos,
                  \* the namespaces of an archive are those of its root, which a solitary unit is itself
                  ns |-> IF w.solitary THEN u.ns ELSE w.ns \cup u.ns]

\* ------------------------------------------------------------------ documents
Document(w, units) ==
    IF w.solitary
    THEN IF units = <<>> THEN [form |-> "none"]
         ELSE LET u == units[1] IN
              [form |-> "solitary", decl |-> w.decl, enc |-> w.enc, pi |-> w.pi, rev |-> u.rev, url |-> u.url, version |-> u.version, opts |-> u.opts,
               tabs |-> u.tabs, pos |-> u.pos, ns |-> u.ns, macros |-> <<>>, attrs |-> u.attrs, units |-> units]
    ELSE [form |-> "archive", decl |-> w.decl, enc |-> w.enc, pi |-> w.pi, rev |-> w.rev, url |-> w.url, version |-> w.version, opts |-> w.opts,
          tabs |-> IF w.pos THEN w.tabs ELSE "-", pos |-> w.pos, ns |-> w.ns, macros |-> w.macros, attrs |-> w.attrs, units |-> units]

UnitsOf(d) == IF d.form = "none" THEN <<>> ELSE d.units

\* the settings of an archive that reads a document
HeadOf(d) == IF d.form = "none" THEN Settings
           ELSE [Settings EXCEPT !.url = d.url, !.version = d.version, !.tabs = IF d.tabs = "-" THEN @ ELSE d.tabs, !.opts = d.opts, !.pos = d.pos,
                                 !.solitary = (d.form = "solitary"), !.pi = d.pi, !.ns = d.ns, !.macros = d.macros, !.rev = IF d.rev = "-" THEN Rev ELSE d.rev, !.attrs = d.attrs,
                                 !.enc = d.enc]
\* of these, what can be asked for
Visible(w) == [url |-> w.url, version |-> w.version, tabs |-> w.tabs, opts |-> w.opts \ {"LINE"}, solitary |-> w.solitary, pi |-> w.pi, ns |-> w.ns,
               rev |-> w.rev, enc |-> w.enc]

\* ------------------------------------------------------------------ state
InitA(docs, slots) == [w |-> Settings, open |-> FALSE, units |-> <<>>, docs |-> docs,
                       rd |-> [h \in Readers |-> [open |-> FALSE, doc |-> "-", pos |-> 0]], us |-> [k \in slots |-> None]]

Getters(u) == [language |-> u.language, filename |-> u.filename, version |-> u.version, timestamp |-> u.timestamp, hash |-> u.hash, rev |-> u.rev]
View(u, url) == [language |-> u.language, filename |-> u.filename, version |-> u.version, timestamp |-> u.timestamp, hash |-> u.hash, attrs |-> u.attrs,
                 rev |-> u.shown.rev, url |-> IF url THEN u.shown.url ELSE "-", tabs |-> u.shown.tabs, opts |-> u.shown.opts, senc |-> u.shown.senc, content |-> u.content]

At(s, h) == UnitsOf(s.docs[s.rd[h].doc])
More(s, h) == s.rd[h].open /\ s.rd[h].pos < Len(At(s, h))
Step(s, h) == [s EXCEPT !.rd[h].pos = @ + 1]

Ask(s, u, what) ==
    CASE what = "attrs" -> Getters(u)
      [] what = "full"  -> View(u, TRUE)
      [] what = "outer" -> View(u, FALSE)
      [] what = "inner" -> [is |-> u.content]
      [] what = "names" -> [is |-> u.names]
      [] what = "source" -> IF u.own \in Readers /\ s.rd[u.own].open THEN [is |-> u.text] ELSE [is |-> "INVALID_IO"]

SetTo(w, e) == CASE e.f \in {"url", "version", "tabs", "pos", "store", "hash", "solitary", "decl", "enc", "pi"} -> [w EXCEPT ![e.f] = e.v]
                 [] e.f = "opt"    -> [w EXCEPT !.opts = @ \cup {e.v}]
                 [] e.f = "ns"     -> [w EXCEPT !.ns = @ \cup {e.v}]

St(x) == [is |-> x]

AResults(s, e) ==
    CASE e.op = "set"    -> {[s |-> [s EXCEPT !.w = SetTo(@, e)], r |-> St("OK")]}
      [] e.op = "fresh"  -> {[s |-> [s EXCEPT !.w = Settings], r |-> St("OK")]}
      [] e.op = "clone"  -> {[s |-> [s EXCEPT !.w = HeadOf(s.docs[s.rd[e.h].doc])], r |-> St("OK")]}
      [] e.op = "wopen"  -> {[s |-> [s EXCEPT !.open = TRUE, !.units = <<>>], r |-> St("OK")]}
      [] e.op = "parse"  -> {[s |-> [s EXCEPT !.us[e.k] = Parsed(s.w, e)], r |-> St("OK")]}
      [] e.op = "write"  -> {IF s.w.solitary /\ s.units # <<>> THEN [s |-> s, r |-> St("INVALID_IO")]
                             ELSE [s |-> [s EXCEPT !.units = Append(@, Written(s.w, s.us[e.k]))], r |-> St("OK")]}
      [] e.op = "wclose" -> LET d == Document(s.w, s.units)
                            IN {[s |-> [s EXCEPT !.open = FALSE, !.units = <<>>, !.docs[e.d] = d], r |-> d]}
      [] e.op = "ropen"  -> {[s |-> [s EXCEPT !.rd[e.h] = [open |-> TRUE, doc |-> e.d, pos |-> 0],
                                        !.us = [k \in DOMAIN @ |-> IF @[k].own = e.h THEN [@[k] EXCEPT !.own = "closed"] ELSE @[k]]],
                              r |-> Visible(HeadOf(s.docs[e.d]))]}
      \* an archive that read another document before
      [] e.op = "reopen" -> {[s |-> [s EXCEPT !.rd[e.h] = [open |-> TRUE, doc |-> e.d, pos |-> 0],
                                        !.us = [k \in DOMAIN @ |-> IF @[k].own = e.h THEN [@[k] EXCEPT !.own = "closed"] ELSE @[k]]],
                              r |-> LET v == Visible(HeadOf(s.docs[e.d])) IN [enc |-> v.enc, solitary |-> v.solitary]]}
      [] e.op = "read"   -> {IF ~More(s, e.h) THEN [s |-> s, r |-> St("end")]
                             ELSE LET u == ReadUnit(At(s, e.h)[s.rd[e.h].pos + 1], e.h)
                                  IN [s |-> [Step(s, e.h) EXCEPT !.us[e.k] = u], r |-> Getters(u)]}
      [] e.op = "skip"   -> {IF ~More(s, e.h) THEN [s |-> s, r |-> St("end")] ELSE [s |-> Step(s, e.h), r |-> St("skipped")]}
      [] e.op = "free"   -> {[s |-> [s EXCEPT !.us[e.k] = None], r |-> St("OK")]}
      [] e.op = "ask"    -> {[s |-> s, r |-> Ask(s, s.us[e.k], e.what)]}
      [] e.op = "rclose" -> {[s |-> [s EXCEPT !.rd[e.h].open = FALSE], r |-> St("OK")]}
      [] OTHER -> {}

\* ------------------------------------------------------------------ properties
\* a document that is read and written again, with the settings read, is the same document
Rewritten(d) == LET w == HeadOf(d) IN Document(w, [i \in 1..Len(UnitsOf(d)) |-> Written(w, ReadUnit(UnitsOf(d)[i], "a"))])
Stable(d) == d.form = "none" \/ Rewritten(d) = [d EXCEPT !.decl = TRUE]
\* no unit gains or loses anything on its way
SameUnits(d, us) == Len(UnitsOf(d)) = Len(us) /\ \A i \in 1..Len(us) : Core(UnitsOf(d)[i]) = Core(us[i])
\* the form is the one asked for
RightForm(w, d) == d.form = IF w.solitary THEN (IF d.form = "none" THEN "none" ELSE "solitary") ELSE "archive"
=============================================================================
