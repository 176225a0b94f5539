---------------------------- MODULE ParserFileMC ----------------------------
(* Text in every encoding is read back; a file cut within a character is not. *)
EXTENDS ParserFile
CONSTANT MaxLen
VARIABLES cps, k
Chars1 == {0, 65, 233, 65279, 55295, 128512, 1114111}
Kinds == <<[w |-> 1, big |-> FALSE, mark |-> <<239, 187, 191>>], [w |-> 1, big |-> FALSE, mark |-> <<>>], [w |-> 2, big |-> TRUE, mark |-> <<254, 255>>],
           [w |-> 2, big |-> FALSE, mark |-> <<255, 254>>], [w |-> 4, big |-> TRUE, mark |-> <<0, 0, 254, 255>>], [w |-> 4, big |-> FALSE, mark |-> <<255, 254, 0, 0>>]>>
Init == cps \in BoundedSeq(Chars1, MaxLen) /\ k \in 1..Len(Kinds)
Spec == Init /\ [][FALSE]_<<cps, k>>
Enc == Kinds[k]
File == Write(cps, Enc, Enc.mark)
\* the marks are told apart by what follows: U+FEFF and NUL at the beginning are not text then
Ambiguous == cps # <<>> /\ ((Enc.mark = <<>> /\ (cps[1] = 65279 \/ cps[1] = 0)) \/ (Enc.w = 2 /\ cps[1] = 0))
ReadBack == ~Ambiguous => Text(File) = EncodeAll(1, cps)
Cut == ~Ambiguous /\ Enc.w > 1 /\ cps # <<>> => \A n \in 1..(Enc.w - 1) : Text(SubSeq(File, 1, Len(File) - n)) = <<None>>
=============================================================================
