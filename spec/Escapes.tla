------------------------------ MODULE Escapes -------------------------------
(***************************************************************************)
(* Source code given as text on the command line, where escapes stand for  *)
(* characters: what source code, and how many inputs, a text is.           *)
(***************************************************************************)
EXTENDS Decode
Backslash == 92
Named(c) == CASE c = 110 -> 10 [] c = 116 -> 9 [] c = 102 -> 12 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 101 -> 27 [] c = 114 -> 13 [] c = 118 -> 11 [] OTHER -> 0
Octal == 48..55
Hex == (48..57) \cup (65..70) \cup (97..102)
Digit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
RECURSIVE Digits(_, _, _, _), Number(_, _, _, _), Steps(_, _, _)
\* how many digits, and no more than n, are at position i
Digits(t, i, n, D) == IF n > 0 /\ i <= Len(t) /\ t[i] \in D THEN 1 + Digits(t, i + 1, n - 1, D) ELSE 0
Number(t, i, n, base) == IF n = 0 THEN 0 ELSE base * Number(t, i, n - 1, base) + Digit(t[i + n - 1])
\* what is at position i: how many characters of the text, and the bytes they are
Item(t, i) ==
    IF t[i] # Backslash THEN [n |-> 1, b |-> <<t[i]>>]
    ELSE IF i = Len(t) THEN [n |-> 1, b |-> <<Backslash>>]
    ELSE LET c == t[i + 1] IN
      IF Named(c) # 0 THEN [n |-> 2, b |-> <<Named(c)>>]
      ELSE IF c = 120 THEN
         LET k == Digits(t, i + 2, 2, Hex) IN [n |-> 2 + k, b |-> IF k = 0 THEN <<Backslash, 120>> ELSE <<Number(t, i + 2, k, 16)>>]
      \* up to three digits, and up to three after a zero
      ELSE IF c \in Octal THEN
         LET z == IF c = 48 THEN 1 ELSE 0
             k == Digits(t, i + 1 + z, 3, Octal) IN [n |-> 1 + z + k, b |-> <<Number(t, i + 1 + z, k, 8)>>]
      ELSE [n |-> 2, b |-> <<Backslash, c>>]
\* the inputs: a character NUL is where one ends and another begins
Steps(t, i, parts) ==
    IF i > Len(t) THEN parts
    ELSE LET x == Item(t, i) IN
         Steps(t, i + x.n, IF x.b = <<0>> THEN Append(parts, <<>>) ELSE [parts EXCEPT ![Len(parts)] = @ \o x.b])
Parts(t) == Steps(t, 1, << <<>> >>)
\* one input is a unit alone
EResults(s, e) ==
    LET p == Parts(e.t) IN
    { [s |-> s, r |-> [st |-> 0, form |-> IF Len(p) = 1 THEN "solitary" ELSE "archive", units |-> [i \in 1..Len(p) |-> Text(None, p[i])]]] }
=============================================================================
