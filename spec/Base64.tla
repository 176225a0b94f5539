------------------------------ MODULE Base64 ------------------------------
(* Base64 (RFC 4648, with padding): three bytes become four symbols; a final *)
(* group of one or two bytes is padded.  Decoding accepts exactly sequences  *)
(* of whole groups whose symbols are valid and whose padding, if any, is one *)
(* or two symbols at the very end.                                           *)
EXTENDS Naturals, Sequences

Pad == 61
SymbolOf(v) == IF v < 26 THEN 65 + v
               ELSE IF v < 52 THEN 97 + v - 26
               ELSE IF v < 62 THEN 48 + v - 52
               ELSE IF v = 62 THEN 43 ELSE 47
Invalid == 99
ValueOf(c) == IF c >= 65 /\ c <= 90 THEN c - 65
              ELSE IF c >= 97 /\ c <= 122 THEN c - 71
              ELSE IF c >= 48 /\ c <= 57 THEN c + 4
              ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE Invalid

ByteOr0(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
Encode(s) ==
    LET groups == (Len(s) + 2) \div 3
        Word(g) == ByteOr0(s, 3*g - 2) * 65536 + ByteOr0(s, 3*g - 1) * 256 + ByteOr0(s, 3*g)
        padding == (3 - (Len(s) % 3)) % 3
    IN [k \in 1..(4 * groups) |->
          LET g == (k + 3) \div 4  j == (k - 1) % 4 IN
          IF k > 4 * groups - padding THEN Pad
          ELSE SymbolOf((Word(g) \div <<262144, 4096, 64, 1>>[j + 1]) % 64)]

PadCount(t) == IF Len(t) = 0 \/ t[Len(t)] # Pad THEN 0
               ELSE IF Len(t) > 1 /\ t[Len(t) - 1] = Pad THEN 2 ELSE 1
Decodable(t) ==
    /\ Len(t) % 4 = 0
    /\ \A k \in 1..(Len(t) - PadCount(t)) : ValueOf(t[k]) # Invalid
Decode(t) ==
    LET groups == Len(t) \div 4
        Val(k) == IF t[k] = Pad THEN 0 ELSE ValueOf(t[k])
        Word(g) == Val(4*g - 3) * 262144 + Val(4*g - 2) * 4096 + Val(4*g - 1) * 64 + Val(4*g)
    IN [k \in 1..(3 * groups - PadCount(t)) |->
          LET g == (k + 2) \div 3  j == (k - 1) % 3 IN (Word(g) \div <<65536, 256, 1>>[j + 1]) % 256]
===========================================================================
