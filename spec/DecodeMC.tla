------------------------------ MODULE DecodeMC ------------------------------
(* All texts of a few characters in every encoding, delivered in all ways with a bounded number of cuts. *)
EXTENDS Decode, Json
CONSTANTS MaxChars, MaxCuts
VARIABLES enc, whole, pos, cuts, r
E8(c) == CASE c = "A" -> <<65>> [] c = "E" -> <<195, 169>> [] c = "Z" -> <<228, 184, 173>> [] c = "P" -> <<240, 159, 152, 128>> [] c = "R" -> <<13>> [] OTHER -> <<10>>
E16(c) == CASE c = "A" -> <<65, 0>> [] c = "E" -> <<233, 0>> [] c = "Z" -> <<45, 78>> [] c = "P" -> <<61, 216, 0, 222>> [] c = "R" -> <<13, 0>> [] OTHER -> <<10, 0>>
E32(c) == CASE c = "A" -> <<65, 0, 0, 0>> [] c = "E" -> <<233, 0, 0, 0>> [] c = "Z" -> <<45, 78, 0, 0>> [] c = "P" -> <<0, 246, 1, 0>> [] c = "R" -> <<13, 0, 0, 0>> [] OTHER -> <<10, 0, 0, 0>>
E1(c) == CASE c = "E" -> <<233>> [] c = "R" -> <<13>> [] c = "L" -> <<10>> [] OTHER -> <<65>>
Swap16(b) == [i \in 1..Len(b) |-> b[(((i - 1) \div 2) * 2) + (2 - ((i - 1) % 2))]]
Swap32(b) == [i \in 1..Len(b) |-> b[(((i - 1) \div 4) * 4) + (4 - ((i - 1) % 4))]]
RECURSIVE Cat(_, _)
Cat(t, f) == IF t = <<>> THEN <<>>
             ELSE (CASE f = "8" -> E8(Head(t)) [] f = "1" -> E1(Head(t)) [] f = "16L" -> E16(Head(t)) [] f = "16B" -> Swap16(E16(Head(t)))
                     [] f = "32L" -> E32(Head(t)) [] OTHER -> Swap32(E32(Head(t)))) \o Cat(Tail(t), f)
Texts == UNION {[1..n -> {"A", "E", "Z", "P", "R", "L"}] : n \in 0..MaxChars}
\* encoding set, scheme of the bytes, mark
Kinds == {<<"UTF-8", "8", <<>> >>, <<"UTF-8", "8", BOM8>>, <<None, "8", BOM8>>, <<None, "1", <<>> >>, <<"ISO-8859-1", "1", <<>> >>,
          <<None, "16L", BOM16L>>, <<None, "16B", BOM16B>>, <<"UTF-16", "16L", <<>> >>, <<"UTF-16", "16B", BOM16B>>, <<"UTF-16LE", "16L", <<>> >>,
          <<"UTF-16BE", "16B", <<>> >>, <<None, "32L", BOM32L>>, <<None, "32B", BOM32B>>, <<"UTF-32", "32L", BOM32L>>}
Init == /\ \E k \in Kinds, t \in Texts : enc = k[1] /\ whole = k[3] \o Cat(t, k[2])
        /\ pos = 0 /\ cuts = <<>> /\ r = R0(enc)
Next == /\ pos < Len(whole)
        /\ \E n \in (IF Len(cuts) = MaxCuts THEN {Len(whole) - pos} ELSE 1..(Len(whole) - pos)) :
             /\ pos' = pos + n
             /\ cuts' = Append(cuts, n)
             /\ r' = Piece(r, SubSeq(whole, pos + 1, pos + n))
        /\ UNCHANGED <<enc, whole>>
Spec == Init /\ [][Next]_<<enc, whole, pos, cuts, r>>
\* at the end the text is the one defined without pieces
Chunkless == pos = Len(whole) => /\ End(r).f.out = Text(enc, whole)
                                 /\ Whole(End(r).d) = Complete(enc, whole)
\* what was already given stays, and is a prefix of the text
Prefix1 == LET t == Text(enc, whole) IN r.open => (Len(r.f.out) <= Len(t) /\ SubSeq(t, 1, Len(r.f.out)) = r.f.out)
AllWhole == Complete(enc, whole)
\* keep the bytes of the mark out
NoMark == pos = Len(whole) => \A i \in 1..Len(End(r).f.out) : End(r).f.out[i] # 65279
Emit == (pos' = Len(whole)) => PrintT("CASE " \o ToJson(<<enc, whole, cuts'>>))
=============================================================================
