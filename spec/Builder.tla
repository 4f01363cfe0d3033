------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Building units element by element.  A unit being built is a stack of    *)
(* open elements and the content written so far.  The calls accepted are   *)
(* the document, in order; a call out of place, or one that no well-formed *)
(* document could satisfy (not a name, a second attribute of the name, a   *)
(* second meaning for a prefix in one tag, a character no document can     *)
(* hold), is refused and leaves no trace.  Ending the unit closes what is  *)
(* open, and the unit then is that document in every form it can be asked  *)
(* for, and after it was written to an archive and read back.              *)
(*                                                                         *)
(* The content is a sequence of events: the start of an element with its   *)
(* name and the set of its attributes, all resolved to namespaces; text;   *)
(* and the end of an element.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == "-"
SRC == "http://www.srcML.org/srcML/src"
Units == {"u", "v"}

\* what cannot be a name or be held by an attribute; texts are escaped instead
BadNames == {"", "a b", "1x", "<", "a:b:c", "&", "e "}
BadPrefixes == {"a b", "1x", "x:y"}
BadValues == {"\\x01", "a\\x0cb", "\\xff"}
BadTexts == {"\\xff", "a\\xc3("}

Elem(p, n, decl) == [p |-> p, n |-> n, at |-> <<>>, decl |-> decl]
Idle == [on |-> FALSE, stack |-> <<>>, intag |-> FALSE, ev |-> <<>>, ok |-> TRUE]
Begun == [Idle EXCEPT !.on = TRUE]
\* root: the prefix of the srcML namespace in the archive
InitB(root) == [root |-> root, un |-> [u \in Units |-> Idle]]

P(p) == IF p = None THEN "" ELSE p

\* what a prefix means inside of the open elements; the innermost declaration counts
RECURSIVE Means(_, _, _)
Means(root, stack, p) ==
    IF Len(stack) = 0 THEN IF p = root THEN SRC ELSE IF p = "" THEN "" ELSE None
    ELSE LET d == stack[Len(stack)].decl
         IN IF p \in DOMAIN d THEN d[p] ELSE Means(root, SubSeq(stack, 1, Len(stack) - 1), p)

AddText(ev, x) == IF x = "" THEN ev
                  ELSE IF Len(ev) > 0 /\ ev[Len(ev)][1] = "text" THEN [ev EXCEPT ![Len(ev)] = <<"text", @[2] \o x>>]
                  ELSE Append(ev, <<"text", x>>)

\* the start tag is complete: its names can be resolved
CloseTag(root, b) ==
    IF ~b.intag THEN b
    ELSE LET e == b.stack[Len(b.stack)]
             uri == Means(root, b.stack, e.p)
             \* an attribute without a prefix is in no namespace
             at == {<<IF a[1] = "" THEN "" ELSE Means(root, b.stack, a[1]), a[2], a[3]>> : a \in {e.at[i] : i \in 1..Len(e.at)}}
             fine == uri # None /\ (\A a \in at : a[1] # None) /\ Cardinality({<<a[1], a[2]>> : a \in at}) = Len(e.at)
         IN [b EXCEPT !.intag = FALSE, !.ev = Append(@, <<"start", uri, e.n, at>>), !.ok = @ /\ fine]

Answer(s, x) == {[s |-> s, r |-> [st |-> x]]}
Refused(s) == Answer(s, "refused")
Set(s, u, b) == [s EXCEPT !.un = [@ EXCEPT ![u] = b]]

Element(s, e) ==
    LET b == s.un[e.u] IN
    IF ~b.on \/ e.n \in BadNames \/ e.n = "unit" \/ e.p \in BadPrefixes THEN Refused(s)
    ELSE LET c == CloseTag(s.root, b)
             d == IF e.uri = None THEN << >> ELSE (P(e.p) :> e.uri)
         IN Answer(Set(s, e.u, [c EXCEPT !.stack = Append(@, Elem(P(e.p), e.n, d)), !.intag = TRUE]), "OK")

Top(b) == b.stack[Len(b.stack)]
Declare(d, p, uri) == (p :> uri) @@ d
InTag(b) == b.on /\ b.intag
Namespace(s, e) ==
    LET b == s.un[e.u]  p == P(e.p) IN
    IF ~InTag(b) \/ p \in BadPrefixes THEN Refused(s)
    ELSE IF p \in DOMAIN Top(b).decl
         THEN IF Top(b).decl[p] = e.uri THEN Answer(s, "OK") ELSE Refused(s)
    ELSE Answer(Set(s, e.u, [b EXCEPT !.stack[Len(b.stack)].decl = Declare(@, p, e.uri)]), "OK")
Attribute(s, e) ==
    LET b == s.un[e.u]  p == P(e.p) IN
    IF ~InTag(b) \/ e.n \in BadNames \/ p \in BadPrefixes \/ e.v = None \/ e.v \in BadValues THEN Refused(s)
    ELSE LET t == Top(b) IN
         IF \E i \in 1..Len(t.at) : t.at[i][1] = p /\ t.at[i][2] = e.n THEN Refused(s)
         ELSE IF e.uri # None /\ p \in DOMAIN t.decl /\ t.decl[p] # e.uri THEN Refused(s)
         ELSE Answer(Set(s, e.u, [b EXCEPT !.stack[Len(b.stack)].at = Append(@, <<p, e.n, e.v>>),
                                           !.stack[Len(b.stack)].decl = IF e.uri = None THEN @ ELSE Declare(@, p, e.uri)]), "OK")
Text(s, e) ==
    LET b == s.un[e.u] IN
    IF ~b.on \/ e.x \in BadTexts THEN Refused(s)
    ELSE LET c == CloseTag(s.root, b) IN Answer(Set(s, e.u, [c EXCEPT !.ev = AddText(@, e.x)]), "OK")
Pop(root, b) == LET c == CloseTag(root, b) IN [c EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.ev = Append(@, <<"end">>)]
EndElement(s, e) ==
    LET b == s.un[e.u] IN
    IF ~b.on \/ Len(b.stack) = 0 THEN Refused(s) ELSE Answer(Set(s, e.u, Pop(s.root, b)), "OK")

RECURSIVE All(_, _)
All(root, b) == IF Len(b.stack) = 0 THEN b ELSE All(root, Pop(root, b))
RECURSIVE Source(_)
Source(ev) == IF ev = <<>> THEN "" ELSE (IF Head(ev)[1] = "text" THEN Head(ev)[2] ELSE "") \o Source(Tail(ev))
\* names left without a meaning are the caller's; of such a document nothing more is asked
End(s, e) ==
    LET b == s.un[e.u] IN
    IF ~b.on THEN Refused(s)
    ELSE LET c == All(s.root, b)
         IN {[s |-> Set(s, e.u, Idle),
              r |-> IF c.ok THEN [st |-> "OK", full |-> c.ev, outer |-> c.ev, inner |-> c.ev, back |-> c.ev, src |-> Source(c.ev)]
                            ELSE [st |-> "OK", full |-> << <<"error", "not namespace well-formed">> >>]]}
Begin(s, e) == Answer(Set(s, e.u, Begun), "OK")

BResults(s, e) ==
    CASE e.op = "start" -> Begin(s, e)
      [] e.op = "element" -> Element(s, e)
      [] e.op = "attribute" -> Attribute(s, e)
      [] e.op = "namespace" -> Namespace(s, e)
      [] e.op = "text" -> Text(s, e)
      [] e.op = "endelement" -> EndElement(s, e)
      [] e.op = "end" -> End(s, e)
      [] OTHER -> {}
=============================================================================
