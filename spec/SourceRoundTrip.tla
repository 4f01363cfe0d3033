--------------------------- MODULE SourceRoundTrip ---------------------------
(***************************************************************************)
(* What a parse keeps of its source.                                       *)
(*                                                                         *)
(* Two levels.  The first is a machine that takes the source one character *)
(* at a time: carriage returns are folded (with one character of memory,   *)
(* lastcr), and each character is issued as plain text, as a reference or  *)
(* as an <escape/> element.  Extraction decodes what was issued.  The      *)
(* machine is checked exhaustively over all texts of a bounded length and  *)
(* every text it reaches is also parsed and extracted by the library.      *)
(*                                                                         *)
(* The second is its observable contract, over texts written as sequences  *)
(* of lines << <<characters, terminator>>, ... >>: every way to get the    *)
(* text back yields Normalise(text).                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences

\* ------------------------------------------------------------------ machine
CR == "CR"
LF == "LF"
Markup == {"<", ">", "&"}
Control == {"CTRL", "FF", "DEL", "NUL"}

Fresh == [in |-> <<>>, lastcr |-> FALSE, out |-> <<>>]

Issue(c) == IF c \in Markup THEN <<"ref", c>> ELSE IF c \in Control THEN <<"escape", c>> ELSE <<"text", c>>

\* one character from the source
Char(s, c) ==
    LET in2 == Append(s.in, c)
    IN IF c = LF /\ s.lastcr THEN [in |-> in2, lastcr |-> FALSE, out |-> s.out]
       ELSE [in |-> in2, lastcr |-> (c = CR), out |-> Append(s.out, Issue(IF c = CR THEN LF ELSE c))]

Decode(out) == [i \in 1..Len(out) |-> out[i][2]]

\* definition of the expected text, independent of the machine
RECURSIVE Fold(_)
Fold(t) == IF t = <<>> THEN <<>>
           ELSE IF Len(t) > 1 /\ t[1] = CR /\ t[2] = LF THEN <<LF>> \o Fold(SubSeq(t, 3, Len(t)))
           ELSE <<IF t[1] = CR THEN LF ELSE t[1]>> \o Fold(Tail(t))

Identity(s) == Decode(s.out) = Fold(s.in)
NoRawMarkup(s) == \A i \in 1..Len(s.out) : s.out[i][1] = "text" => s.out[i][2] \notin Markup \cup Control

\* ------------------------------------------------------------------ contract
Breaks == {"CR", "LF", "CRLF"}
Normalise(lines) == [i \in 1..Len(lines) |-> <<lines[i][1], IF lines[i][2] \in Breaks THEN "LF" ELSE "EOF">>]

NoText == << >>
\* a view of the text: the characters of the markup, or an extraction to any place, in any phase
Results(s, e) ==
    CASE e.op = "parse" -> {[s |-> Normalise(e.src), r |-> "OK"]}
      [] e.op = "view" -> {[s |-> s, r |-> s]}
      [] OTHER -> {}
=============================================================================
