------------------------------ MODULE AddressMC ------------------------------
(* Writing and reading are inverse, and what is read is written canonically:  *)
(* for all addresses of a few values per part, and all short texts.           *)
EXTENDS Address, TLC
CONSTANTS Groups6, Alphabet, MaxLen
VARIABLES kind, x
Values(n, S) == [1..n -> S]
Init == \/ kind = "six" /\ x \in Values(8, Groups6)
        \/ kind = "four" /\ x \in Values(4, {0, 1, 9, 10, 99, 100, 255})
        \/ kind = "text" /\ x \in UNION {Values(n, Alphabet) : n \in 0..MaxLen}
Next == UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, x>>
OctetsOf(g) == FlattenSeq([k \in 1..8 |-> <<g[k] \div 256, g[k] % 256>>])
RoundTrip6 == kind = "six" => /\ V6(Show6(OctetsOf(x))) = Yes(OctetsOf(x))
                              /\ Endpoint(<<91>> \o Show6(OctetsOf(x)) \o <<93, Colon, 56>>, TRUE) = [Yes(OctetsOf(x)) EXCEPT !.port = 8]
RoundTrip4 == kind = "four" => V4(Show4(x)) = Yes(x) /\ Endpoint(Show4(x) \o <<Colon, 48>>, FALSE) = Yes(x)
Texts == kind = "text" => LET r == V6(x) IN r.ok => Len(r.octets) = 16 /\ V6(Show6(r.octets)) = r
=============================================================================
