------------------------------ MODULE UnicodeMC ------------------------------
(* For all code points chosen and all short texts: every code point survives *)
(* each encoding and each escaping, and what is decoded was written in the   *)
(* only way there is.                                                        *)
EXTENDS Unicode, TLC
CONSTANTS Points, Units8, Units16, MaxLen
VARIABLES kind, x
Init == /\ UInit
        /\ \/ kind = "point" /\ x \in Points
           \/ kind = "text8" /\ x \in UNION {[1..n -> Units8] : n \in 0..MaxLen}
           \/ kind = "text16" /\ x \in UNION {[1..n -> Units16] : n \in 0..MaxLen}
Next == UNCHANGED <<kind, x, uvars>>
Spec == Init /\ [][Next]_<<kind, x, uvars>>
Survives == kind = "point" /\ Valid(x) =>
    /\ \A w \in {1, 2, 4} : Decode(w, Encode(w, x), 1) = Good(x, Len(Encode(w, x)) + 1)
    /\ x > 126 => \A p \in {"u", "U"} : Unescape(Escape(p, x), 1) = Good(x, Len(Escape(p, x)) + 1)
Only(w) == LET r == Decode(w, x, 1) IN r.ok => Valid(r.cp) /\ SubSeq(x, 1, r.next - 1) = Encode(w, r.cp)
Canonical == /\ kind = "text8" => Only(1)
             /\ kind = "text16" => Only(2)
\* no encoding of a code point is hidden within another one
Synchronised == kind = "text8" => \A p \in 1..Len(x) : (Decode(1, x, 1).ok /\ p > 1 /\ p < Decode(1, x, 1).next) => ~Decode(1, x, p).ok
\* converting back gives the same text
ConvertsBack == kind = "text8" /\ IsValid(1, x) =>
    LET c == DecodeAll(1, x) IN EncodeAll(1, c) = x /\ DecodeAll(2, EncodeAll(2, c)) = c
=============================================================================
