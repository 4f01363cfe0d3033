-------------------------------- MODULE Diff --------------------------------
(***************************************************************************)
(* srcDiff: one document with two versions, and the selection of one (C17). *)
(*                                                                         *)
(* The content of a unit is a sequence of tokens                            *)
(*   <<"s", name, att>> .. <<"e">>   an element                             *)
(*   <<"d", kind>> .. <<"/d">>       a region: common, delete or insert     *)
(*   <<"t", text>>, <<"n">>          text without a line end, a line end     *)
(*   <<"x", char>>                   an escaped character                    *)
(*   <<"c", text>>                   other markup (comment, instruction)     *)
(* A token is in a version if the innermost region around it is: delete is   *)
(* the original version ("0") only, insert the modified one ("1") only.  An   *)
(* element may be in a region while part of its content is common to both.   *)
(* An attribute has one value, or two: <<original, modified>>.              *)
(*                                                                         *)
(* The state is the archive with its selection, and the units that were      *)
(* read from it.  Whatever is asked is answered for the selected version     *)
(* alone; with nothing selected the document is as it is.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt

None == "-"
Top(stack) == IF stack = <<>> THEN "common" ELSE stack[Len(stack)]
InVersion(kind, rev) == rev = "none" \/ kind = "common" \/ (kind = "delete" /\ rev = "0") \/ (kind = "insert" /\ rev = "1")

\* text that becomes adjacent is one text
Text(tok) == CASE tok[1] = "n" -> "\n" [] OTHER -> tok[2]
IsText(tok) == tok[1] \in {"t", "n"}
Step(rev, a, tok) ==
    CASE tok[1] = "d" -> [out |-> IF rev = "none" THEN Append(a.out, tok) ELSE a.out, stack |-> Append(a.stack, tok[2])]
      [] tok[1] = "/d" -> [out |-> IF rev = "none" THEN Append(a.out, tok) ELSE a.out, stack |-> SubSeq(a.stack, 1, Len(a.stack) - 1)]
      [] OTHER -> [a EXCEPT !.out = IF InVersion(Top(a.stack), rev) THEN Append(@, tok) ELSE @]

\* the tokens of a version
Version(toks, rev) == FoldLeft(LAMBDA a, tok : Step(rev, a, tok), [out |-> <<>>, stack |-> <<>>], toks).out

\* as it is seen: adjacent text in one
Seen(toks) == FoldLeft(LAMBDA a, tok : IF ~IsText(tok) THEN Append(a, tok)
                                       ELSE IF a # <<>> /\ a[Len(a)][1] = "t" THEN [a EXCEPT ![Len(a)] = <<"t", @[2] \o Text(tok)>>]
                                       ELSE Append(a, <<"t", Text(tok)>>), <<>>, toks)
InSource(toks) == SelectSeq(toks, LAMBDA tok : tok[1] \in {"t", "n", "x"})
Source(toks) == FoldLeft(LAMBDA a, tok : a \o Text(tok), "", InSource(toks))
Lines(toks) == LET src == InSource(toks) IN
               Len(SelectSeq(src, LAMBDA tok : tok[1] = "n")) + (IF src # <<>> /\ src[Len(src)][1] # "n" THEN 1 ELSE 0)

Value(v, rev) == IF Len(v) = 1 THEN v[1] ELSE CASE rev = "0" -> v[1] [] rev = "1" -> v[2] [] OTHER -> v[1] \o "|" \o v[2]
Attributes(at, rev) == [n \in DOMAIN at |-> Value(at[n], rev)]
Asked == {"language", "filename", "version", "timestamp", "hash"}
Get(at, rev) == [n \in Asked |-> IF n \in DOMAIN at THEN Value(at[n], rev) ELSE None]

\* the end of the element that starts at i
Opens(tok) == tok[1] \in {"s", "d"}
Closes(tok) == tok[1] \in {"e", "/d"}
Depth(toks, i) == Len(SelectSeq(SubSeq(toks, 1, i), Opens)) - Len(SelectSeq(SubSeq(toks, 1, i), Closes))
EndOf(toks, i) == CHOOSE j \in (i + 1)..Len(toks) : Depth(toks, j) = Depth(toks, i) - 1 /\ \A k \in i..(j - 1) : Depth(toks, k) >= Depth(toks, i)
Elements(toks, name) == LET at == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : toks[i][1] = "s" /\ toks[i][2] = name)
                        IN [k \in 1..Len(at) |-> Seen(SubSeq(toks, at[k], EndOf(toks, at[k])))]

Fresh == [rev |-> "none", units |-> <<>>, next |-> 0, held |-> [h \in {"1", "2"} |-> 0]]
Unit(st, h) == st.units[st.held[h]]

DResults(st, e) ==
    CASE e.op = "set" -> IF e.v \in {"0", "1"} THEN {[s |-> [st EXCEPT !.rev = e.v], r |-> "OK"]} ELSE {[s |-> st, r |-> "INVALID_ARGUMENT"]}
      [] e.op = "rev" -> {[s |-> st, r |-> st.rev]}
      [] e.op = "open" -> {[s |-> [st EXCEPT !.units = e.units, !.next = 1], r |-> "OK"]}
      [] e.op = "read" -> IF st.next > Len(st.units) THEN {[s |-> [st EXCEPT !.held[e.h] = 0], r |-> "end"]}
                          ELSE {[s |-> [st EXCEPT !.held[e.h] = st.next, !.next = @ + 1], r |-> "unit"]}
      [] e.op = "skip" -> IF st.next > Len(st.units) THEN {[s |-> st, r |-> 0]} ELSE {[s |-> [st EXCEPT !.next = @ + 1], r |-> 1]}
      [] st.held[e.h] = 0 -> {}
      [] OTHER ->
        LET u == Unit(st, e.h)
            v == Version(u.toks, st.rev)
            doc == [at |-> Attributes(u.at, st.rev), toks |-> Seen(v)]
        IN CASE e.op \in {"full", "outer", "write", "again"} -> {[s |-> st, r |-> doc]}
             [] e.op = "inner" -> {[s |-> st, r |-> doc.toks]}
             [] e.op = "src" -> {[s |-> st, r |-> Source(v)]}
             [] e.op = "loc" -> {[s |-> st, r |-> Lines(v)]}
             [] e.op = "get" -> {[s |-> st, r |-> Get(u.at, st.rev)]}
             [] e.op = "find" -> {[s |-> st, r |-> Elements(v, e.n)]}
             [] OTHER -> {}
=============================================================================
