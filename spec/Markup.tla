------------------------------- MODULE Markup -------------------------------
(***************************************************************************)
(* A srcML document, taken one markup token at a time: start tags (with    *)
(* attributes, declarations), end tags, text, escape elements.             *)
(*                                                                         *)
(* The machine keeps the stack of open elements with the namespaces in     *)
(* scope, the cursor in the source as <<line, column>>, and the extent of  *)
(* the text seen in every open element.  A token that the machine cannot   *)
(* take leaves a reason in err.  Step is the transition; a document is     *)
(* right when the machine takes all of its tokens and ends outside of the  *)
(* root element with all of the source used.                               *)
(*                                                                         *)
(* Tokens                                                                  *)
(*   [k |-> "decl"], [k |-> "pi"], [k |-> "bad", m |-> why]                *)
(*   [k |-> "s", p, n, a, d, ps, pe]   prefix, local name, attributes as   *)
(*        <<prefix, name, value>>, declarations <<prefix, uri>>, position  *)
(*        start and end (<<>> or <<line, column>>)                         *)
(*   [k |-> "e", p, n]                                                     *)
(*   [k |-> "t", x, y, u]    text, the source text at this place, its runs *)
(*   [k |-> "x", p, y, u]    escape element for one character of source    *)
(*   [k |-> "z", y, left]    end of document, source left over             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

None == <<>>
XML == "http://www.w3.org/XML/1998/namespace"
Top(st) == st[Len(st)]

\* ------------------------------------------------------------------ positions
\* a run <<kind, n>>: n characters; "s" blank, "t" one tab, "n" one line end, "c" a line continuation, "o" others
Advance(c, run, tabs) == CASE run[1] \in {"n", "c"} -> <<c[1] + 1, 1>>
                           [] run[1] = "t" -> <<c[1], ((c[2] - 1) \div tabs) * tabs + tabs + 1>>
                           [] OTHER -> <<c[1], c[2] + run[2]>>
RECURSIVE Cursor(_, _, _)
Cursor(c, us, tabs) == IF us = <<>> THEN c ELSE Cursor(Advance(c, Head(us), tabs), Tail(us), tabs)
\* first and last significant place in runs from c on: <<first, last>>, None when blank
RECURSIVE Extent(_, _, _, _)
Extent(c, us, tabs, x) ==
    IF us = <<>> THEN x
    ELSE LET r == Head(us)
             x2 == IF r[1] # "o" THEN x
                   ELSE <<IF x = None THEN c ELSE x[1], <<c[1], c[2] + r[2] - 1>> >>
         IN Extent(Advance(c, r, tabs), Tail(us), tabs, x2)
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
\* extent x followed by extent y
Join(x, y) == IF x = None THEN y ELSE IF y = None THEN x ELSE <<x[1], y[2]>>

\* comments, directives and macros take no part in the extent of what surrounds them
Skipped(t) == t.n \in {"comment", "macro"} \/ t.cpp

\* kinds that begin exactly at their own first token whatever surrounds them
Firm == {"operator", "comment", "call", "condition", "decl_stmt", "return", "specifier", "directive", "file", "include", "modifier", "break", "continue", "goto", "name", "literal", "function", "function_decl", "class", "struct", "if", "if_stmt", "while", "for", "do", "switch", "case", "else",
          "expr_stmt", "decl", "init", "parameter_list", "argument_list", "parameter", "define", "macro", "namespace", "using", "try", "catch",
          "constructor", "destructor", "enum", "union", "typedef", "label", "control", "endif", "ifdef", "pragma", "value", "throw", "template"}
\* kinds that may end before text that is in them
Loose == {"block_content", "block", "if", "if_stmt", "empty", "then", "type"}
\* kinds that even in well-formed programs need not end at their last token
Soft == {"block_content", "type"}

\* a conditional may leave text out: in text that ends there nothing else need follow in an element that it cuts
Conditional(t) == t.cpp /\ t.n \in {"if", "ifdef", "ifndef", "elif", "else"}
Cuts(st) == [i \in 1..Len(st) |-> LET e == FoldLeft(LAMBDA a, b: Join(a, b.x), None, SubSeq(st, i, Len(st)))
                                  IN [st[i] EXCEPT !.cuts = IF e = None THEN @ ELSE @ \cup {e[2]}]]

\* judgement of the position of an element with extent x and cursor c just past it
PosError(el, c) ==
    IF el.pos = "no" THEN ""
    ELSE IF el.ps = None /\ el.pe = None
         THEN IF el.x # None /\ el.n \notin {"block_content", "escape", "unit"} THEN "text without position" ELSE ""
    ELSE IF el.ps = None \/ el.pe = None THEN "half a position"
    ELSE IF ~Before(el.ps, el.pe) THEN "start follows end"
    ELSE IF el.x = None THEN ""
    ELSE IF el.ps # el.x[1] /\ (el.n \in Firm \/ (el.pos = "strict" /\ el.n \notin Soft)) THEN "start"
    ELSE IF el.n \notin Soft /\ ~Before(el.ps, el.x[1]) THEN "start after the first token"
    ELSE IF el.n \notin Soft /\ (el.pos = "strict" \/ el.n \notin Loose) /\ el.pe # el.x[2] /\ el.pe # <<c[1], c[2] - 1>>
            /\ (el.pos = "strict" \/ el.pe \notin el.cuts) THEN "end"
    ELSE ""

\* ------------------------------------------------------------------ machine
Start0(tabs, pos) == [st |-> <<>>, cur |-> <<1, 1>>, tabs |-> tabs, pos |-> pos, roots |-> 0, first |-> TRUE, err |-> ""]
Fail(s, m) == [s EXCEPT !.err = m]

Bound(scope, p) == \E d \in scope : d[1] = p
UriOf(scope, p) == IF \E d \in scope : d[1] = p THEN (CHOOSE d \in scope : d[1] = p)[2] ELSE ""

Open(s, t) ==
    LET outer == IF s.st = <<>> THEN {<<"xml", XML>>} ELSE Top(s.st).scope
        decl == {t.d[i] : i \in 1..Len(t.d)}
        scope == decl \cup {o \in outer : \A d \in decl : d[1] # o[1]}
        names == {<<t.a[i][1], t.a[i][2]>> : i \in 1..Len(t.a)}
        expanded == {<<IF n[1] = "" THEN "" ELSE UriOf(scope, n[1]), n[2]>> : n \in names}
        unit == t.n = "unit" /\ UriOf(scope, t.p) = "http://www.srcML.org/srcML/src"
        err == CASE s.st = <<>> /\ s.roots > 0 -> "second root"
                 [] s.st = <<>> /\ ~unit -> "root is not a unit"
                 [] s.st # <<>> /\ t.n = "unit" /\ ~unit -> "unit in another namespace"
                 [] unit /\ Len(s.st) > 1 -> "unit inside of a unit"
                 [] Cardinality({d[1] : d \in decl}) # Len(t.d) -> "namespace declared twice"
                 [] \E d \in decl : (d[1] # "" /\ d[2] = "") \/ d[1] \in {"xml", "xmlns"} -> "bad declaration"
                 [] Cardinality(names) # Len(t.a) \/ Cardinality(expanded) # Len(t.a) -> "attribute given twice"
                 [] ~Bound(scope, t.p) -> "prefix not declared"
                 [] \E n \in names : n[1] # "" /\ ~Bound(scope, n[1]) -> "attribute prefix not declared"
                 [] OTHER -> ""
    IN IF err # "" THEN Fail(s, err)
       ELSE [s EXCEPT !.st = Append(IF Conditional(t) /\ s.pos = "yes" THEN Cuts(@) ELSE @, [p |-> t.p, n |-> t.n, scope |-> scope, x |-> None, ps |-> t.ps, pe |-> t.pe, cuts |-> {},
                                        pos |-> s.pos, skip |-> Skipped(t) \/ unit, in |-> (IF s.st = <<>> THEN FALSE ELSE Top(s.st).in) \/ Skipped(t)]),
                     !.roots = IF s.st = <<>> THEN 1 ELSE @,
                     !.cur = IF unit THEN <<1, 1>> ELSE @]

Close(s, t) ==
    IF s.st = <<>> THEN Fail(s, "end tag without start tag")
    ELSE LET el == Top(s.st)
             rest == SubSeq(s.st, 1, Len(s.st) - 1)
             pe == PosError(el, s.cur)
             outermost == rest = <<>> \/ ~Top(rest).in
         IN IF <<el.p, el.n>> # <<t.p, t.n>> THEN Fail(s, "end tag does not match")
            ELSE IF pe # "" THEN Fail(s, "position: " \o pe \o " of " \o el.n \o ToString(<<el.ps, el.pe, el.x, s.cur>>))
            ELSE IF rest = <<>> \/ (el.skip /\ outermost) THEN [s EXCEPT !.st = rest]
            ELSE [s EXCEPT !.st = [rest EXCEPT ![Len(rest)].x = Join(@, el.x)]]

\* text at the cursor
Take(s, t) ==
    IF s.st = <<>> THEN Fail(s, "text outside of the root")
    ELSE LET x == Extent(s.cur, t.u, s.tabs, None)
         IN [s EXCEPT !.st[Len(s.st)].x = Join(@, x), !.cur = Cursor(s.cur, t.u, s.tabs)]

Step(s, t) ==
    IF s.err # "" THEN s
    ELSE LET s2 == [s EXCEPT !.first = FALSE] IN
         CASE t.k = "decl" -> IF s.first THEN s2 ELSE Fail(s, "XML declaration not at the start")
           [] t.k = "pi" -> IF s.st = <<>> THEN s2 ELSE Fail(s, "processing instruction inside")
           [] t.k = "s" -> Open(s2, t)
           [] t.k = "e" -> Close(s2, t)
           [] t.k = "t" -> IF t.x # t.y THEN Fail(s, "text is not the source") ELSE Take(s2, t)
           [] t.k = "w" -> IF Len(s.st) < 2 THEN s2 ELSE Fail(s, "space inside of a unit")     \* blank between units
           [] t.k = "x" -> IF t.x # t.y THEN Fail(s, "escape is not the source")
                           ELSE IF s.st = <<>> \/ UriOf(Top(s.st).scope, t.p) # "http://www.srcML.org/srcML/src" THEN Fail(s, "escape")
                           ELSE Take(s2, t)
           [] t.k = "z" -> IF s.st # <<>> THEN Fail(s, "element not closed")
                           ELSE IF s.roots # 1 THEN Fail(s, "no root")
                           ELSE IF t.left # "" THEN Fail(s, "source is missing")
                           ELSE s2
           [] OTHER -> Fail(s, t.m)

Verdict(e) == LET z == FoldLeft(Step, Start0(e.tabs, e.pos), e.toks) IN IF z.err = "" THEN "OK" ELSE z.err

\* ------------------------------------------------------------------ trace events
Results(s, e) ==
    CASE e.op = "doc" -> {[s |-> s, r |-> Verdict(e)]}
      \* the same source marked up with positions and without: what is left after removing the positions is equal
      [] e.op = "same" -> {[s |-> s, r |-> e.other]}
      \* an independent parser's view of the same document
      [] e.op = "accepted" -> {[s |-> s, r |-> TRUE]}
      [] e.op = "tabs" -> {[s |-> s, r |-> IF e.pos # "no" THEN ToString(e.tabs) ELSE "-"]}
      [] OTHER -> {}
=============================================================================
