------------------------------- MODULE Decode -------------------------------
(***************************************************************************)
(* Reading of a source: bytes delivered in pieces, decoded from the        *)
(* encoding in force, with line ends folded.                               *)
(*                                                                         *)
(* The reader is a machine that takes one piece at a time and keeps the    *)
(* bytes of an incomplete character, whether the last character was a      *)
(* carriage return, and until four bytes are known the start (it may hold  *)
(* a byte-order mark).  Text(enc, bytes) is the definition it has to meet, *)
(* whatever the pieces.                                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

CR == 13
LF == 10
None == "-"

StartsWith(b, p) == Len(b) >= Len(p) /\ SubSeq(b, 1, Len(p)) = p
BOM8 == <<239, 187, 191>>
BOM16L == <<255, 254>>
BOM16B == <<254, 255>>
BOM32L == <<255, 254, 0, 0>>
BOM32B == <<0, 0, 254, 255>>

\* encoding in force: [name, how (scheme), skip (bytes of the mark)]
Force(enc, b) ==
    CASE enc = None ->
           (IF StartsWith(b, BOM8) THEN [name |-> "UTF-8", how |-> "8", skip |-> 3]
            ELSE IF StartsWith(b, BOM32L) THEN [name |-> "UTF-32", how |-> "32L", skip |-> 4]
            ELSE IF StartsWith(b, BOM32B) THEN [name |-> "UTF-32", how |-> "32B", skip |-> 4]
            ELSE IF StartsWith(b, BOM16L) THEN [name |-> "UTF-16", how |-> "16L", skip |-> 2]
            ELSE IF StartsWith(b, BOM16B) THEN [name |-> "UTF-16", how |-> "16B", skip |-> 2]
            ELSE [name |-> "ISO-8859-1", how |-> "1", skip |-> 0])
      [] enc = "UTF-16" -> [name |-> enc, how |-> IF StartsWith(b, BOM16B) THEN "16B" ELSE "16L",
                            skip |-> IF StartsWith(b, BOM16L) \/ StartsWith(b, BOM16B) THEN 2 ELSE 0]
      [] enc = "UTF-32" -> [name |-> enc, how |-> IF StartsWith(b, BOM32B) THEN "32B" ELSE "32L",
                            skip |-> IF StartsWith(b, BOM32L) \/ StartsWith(b, BOM32B) THEN 4 ELSE 0]
      [] enc = "UTF-16LE" -> [name |-> enc, how |-> "16L", skip |-> 0]
      [] enc = "UTF-16BE" -> [name |-> enc, how |-> "16B", skip |-> 0]
      [] OTHER -> [name |-> enc, how |-> IF enc = "UTF-8" THEN "8" ELSE "1", skip |-> IF StartsWith(b, BOM8) THEN 3 ELSE 0]

\* ------------------------------------------------------------------ one byte at a time
\* d: [how, carry, hi (first half of a pair, 0 for none), out, bad]
D0(how) == [how |-> how, carry |-> <<>>, hi |-> 0, out |-> <<>>, bad |-> FALSE]
Give(d, c) == [d EXCEPT !.carry = <<>>, !.hi = 0, !.out = Append(@, c)]
Unit16(d, x) == IF d.hi # 0 THEN (IF x \div 1024 = 55 THEN Give(d, 65536 + ((d.hi % 1024) * 1024) + (x % 1024)) ELSE [d EXCEPT !.bad = TRUE])
                ELSE IF x \div 1024 = 54 THEN [d EXCEPT !.carry = <<>>, !.hi = x]
                ELSE IF x \div 1024 = 55 THEN [d EXCEPT !.bad = TRUE]
                ELSE Give(d, x)
Need(b) == IF b < 128 THEN 1 ELSE IF b < 194 THEN 0 ELSE IF b < 224 THEN 2 ELSE IF b < 240 THEN 3 ELSE IF b < 245 THEN 4 ELSE 0
Code(c) == CASE Len(c) = 1 -> c[1]
             [] Len(c) = 2 -> ((c[1] % 32) * 64) + (c[2] % 64)
             [] Len(c) = 3 -> ((c[1] % 16) * 4096) + ((c[2] % 64) * 64) + (c[3] % 64)
             [] OTHER -> ((c[1] % 8) * 262144) + ((c[2] % 64) * 4096) + ((c[3] % 64) * 64) + (c[4] % 64)
Byte(d, x) ==
    LET c == Append(d.carry, x) IN
    CASE d.bad -> d
      [] d.how = "1" -> Give(d, x)
      [] d.how = "8" -> IF Need(c[1]) = 0 \/ (Len(c) > 1 /\ x \div 64 # 2) THEN [d EXCEPT !.bad = TRUE]
                        ELSE IF Len(c) = Need(c[1]) THEN Give(d, Code(c)) ELSE [d EXCEPT !.carry = c]
      [] d.how \in {"16L", "16B"} -> IF Len(c) < 2 THEN [d EXCEPT !.carry = c]
                                     ELSE Unit16(d, IF d.how = "16L" THEN c[1] + 256 * c[2] ELSE c[2] + 256 * c[1])
      [] OTHER -> IF Len(c) < 4 THEN [d EXCEPT !.carry = c]
                  ELSE Give(d, IF d.how = "32L" THEN c[1] + 256 * c[2] + 65536 * c[3] ELSE c[4] + 256 * c[3] + 65536 * c[2])

Whole(d) == ~d.bad /\ d.carry = <<>> /\ d.hi = 0

\* line ends: f is [last (a carriage return was just folded), out]
FoldOne(f, c) == IF c = LF /\ f.cr THEN [cr |-> FALSE, out |-> f.out]
                 ELSE [cr |-> c = CR, out |-> Append(f.out, IF c = CR THEN LF ELSE c)]
Fold(t) == FoldLeft(FoldOne, [cr |-> FALSE, out |-> <<>>], t).out

Decoded(enc, b) == LET f == Force(enc, b) IN FoldLeft(Byte, D0(f.how), SubSeq(b, f.skip + 1, Len(b)))
Complete(enc, b) == Whole(Decoded(enc, b))
Text(enc, b) == Fold(Decoded(enc, b).out)

\* ------------------------------------------------------------------ in pieces
R0(enc) == [enc |-> enc, start |-> <<>>, open |-> FALSE, d |-> D0("1"), f |-> [cr |-> FALSE, out |-> <<>>]]
Run(r, bytes) == LET d == FoldLeft(Byte, [r.d EXCEPT !.out = <<>>], bytes)
                 IN [r EXCEPT !.d = d, !.f = FoldLeft(FoldOne, @, d.out)]
OpenWith(r, b) == LET f == Force(r.enc, b) IN Run([r EXCEPT !.open = TRUE, !.start = <<>>, !.d = D0(f.how)], SubSeq(b, f.skip + 1, Len(b)))
Piece(r, bytes) == IF r.open THEN Run(r, bytes)
                   ELSE IF Len(r.start) + Len(bytes) >= 4 THEN OpenWith(r, r.start \o bytes)
                   ELSE [r EXCEPT !.start = @ \o bytes]
End(r) == IF r.open THEN r ELSE OpenWith(r, r.start)

\* ------------------------------------------------------------------ trace events
\* state: the markup the first parse of these bytes gave
Streams == [memory |-> None, file |-> None, FILE |-> "open at end", fd |-> "open at end", pipe |-> "open at end", pipeFILE |-> "open at end",
            io |-> "closed 1", ioleft |-> "closed 0"]
Results(s, e) ==
    CASE e.op = "parse" ->
            LET d == Decoded(e.enc, e.bytes)
            IN {[s |-> s, r |-> IF Whole(d) THEN [st |-> "OK", text |-> Fold(d.out), stream |-> Streams[e.how],
                                                  enc |-> IF e.bytes = <<>> THEN "any" ELSE Force(e.enc, e.bytes).name]
                                ELSE [st |-> "IO_ERROR", text |-> <<>>, stream |-> "any", enc |-> "any"]]}
      [] e.op = "markup" -> IF s = None THEN {[s |-> e.r, r |-> e.r]} ELSE {[s |-> s, r |-> s]}
      [] e.op = "next" -> {[s |-> None, r |-> "OK"]}
      [] OTHER -> {}
=============================================================================
