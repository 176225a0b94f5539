----------------------------- MODULE ParserFile -----------------------------
(* Files as they are parsed: a byte order mark tells the encoding, otherwise *)
(* it is UTF-8; what cannot be read or is not well-formed yields nothing.    *)
EXTENDS Ini

Starts(b, mark) == Len(b) >= Len(mark) /\ SubSeq(b, 1, Len(mark)) = mark
\* [w: bytes of a unit, big, from]
Encoding(b) ==
    IF Starts(b, <<239, 187, 191>>) THEN [w |-> 1, big |-> FALSE, from |-> 4]
    ELSE IF Starts(b, <<0, 0, 254, 255>>) THEN [w |-> 4, big |-> TRUE, from |-> 5]
    ELSE IF Starts(b, <<255, 254, 0, 0>>) THEN [w |-> 4, big |-> FALSE, from |-> 5]
    ELSE IF Starts(b, <<254, 255>>) THEN [w |-> 2, big |-> TRUE, from |-> 3]
    ELSE IF Starts(b, <<255, 254>>) THEN [w |-> 2, big |-> FALSE, from |-> 3]
    ELSE [w |-> 1, big |-> FALSE, from |-> 1]
At4(b, p, big, k) == IF big THEN b[p + 3 - k] ELSE b[p + k] \* k-th byte, beginning with the lowest
Unit(b, p, e) ==
    IF e.w = 2 THEN (IF e.big THEN b[p] * 256 + b[p + 1] ELSE b[p + 1] * 256 + b[p])
    ELSE IF At4(b, p, e.big, 3) # 0 \/ At4(b, p, e.big, 2) > 16 THEN 1114112
    ELSE At4(b, p, e.big, 2) * 65536 + At4(b, p, e.big, 1) * 256 + At4(b, p, e.big, 0)
\* the text as UTF-8, <<None>> if there is none
Text(b) ==
    LET e == Encoding(b) rest == Len(b) - e.from + 1 IN
    IF e.w = 1 THEN SubSeq(b, e.from, Len(b))
    ELSE IF (rest % e.w) # 0 THEN <<None>>
    ELSE LET us == [k \in 1..(rest \div e.w) |-> Unit(b, e.from + (k - 1) * e.w, e)]
             cps == DecodeAll(e.w, us)
         IN IF cps = <<None>> THEN <<None>> ELSE EncodeAll(1, cps)
\* the other way round
Bytes(x, e) == CASE e.w = 1 -> <<x>>
                 [] e.w = 2 -> (IF e.big THEN <<x \div 256, x % 256>> ELSE <<x % 256, x \div 256>>)
                 [] OTHER -> LET s == <<0, x \div 65536, (x \div 256) % 256, x % 256>> IN IF e.big THEN s ELSE Reverse(s)
Write(cps, e, mark) == mark \o FlattenSeq([k \in 1..Len(EncodeAll(e.w, cps)) |-> Bytes(EncodeAll(e.w, cps)[k], e)])
=============================================================================
