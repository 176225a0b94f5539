---------------------------- MODULE UnicodeText -----------------------------
(* Unicode text held in code units of one, two or four bytes (UTF-8, UTF-16, *)
(* UTF-32), and the conversions between the encodings and their escaped form. *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

None == -1
IsHigh(c) == c >= 55296 /\ c <= 56319
IsLow(c) == c >= 56320 /\ c <= 57343
Valid(c) == c >= 0 /\ c <= 1114111 /\ ~(c >= 55296 /\ c <= 57343)

\* ---- encoding
Encode8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Encode16(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Encode(w, c) == CASE w = 1 -> Encode8(c) [] w = 2 -> Encode16(c) [] OTHER -> <<c>>

\* ---- decoding: the code point at position p (1-based) of s and the position after it
Bad == [ok |-> FALSE, cp |-> None, next |-> None]
Good(c, p) == [ok |-> TRUE, cp |-> c, next |-> p]
Cont(s, p) == p <= Len(s) /\ s[p] >= 128 /\ s[p] <= 191
Low6(s, p) == s[p] - 128
Decode8(s, p) ==
    LET b == s[p] IN
    IF b < 128 THEN Good(b, p + 1)
    ELSE IF b >= 194 /\ b <= 223 THEN (IF Cont(s, p + 1) THEN Good((b - 192) * 64 + Low6(s, p + 1), p + 2) ELSE Bad)
    ELSE IF b >= 224 /\ b <= 239
         THEN IF /\ Cont(s, p + 1) /\ Cont(s, p + 2)
                 /\ b = 224 => s[p + 1] >= 160
                 /\ b = 237 => s[p + 1] <= 159
              THEN Good((b - 224) * 4096 + Low6(s, p + 1) * 64 + Low6(s, p + 2), p + 3) ELSE Bad
    ELSE IF b >= 240 /\ b <= 244
         THEN IF /\ Cont(s, p + 1) /\ Cont(s, p + 2) /\ Cont(s, p + 3)
                 /\ b = 240 => s[p + 1] >= 144
                 /\ b = 244 => s[p + 1] <= 143
              THEN Good((b - 240) * 262144 + Low6(s, p + 1) * 4096 + Low6(s, p + 2) * 64 + Low6(s, p + 3), p + 4) ELSE Bad
    ELSE Bad
Pair(h, l) == 65536 + (h - 55296) * 1024 + (l - 56320)
Decode16(s, p) ==
    IF IsHigh(s[p]) THEN (IF p < Len(s) /\ IsLow(s[p + 1]) THEN Good(Pair(s[p], s[p + 1]), p + 2) ELSE Bad)
    ELSE IF IsLow(s[p]) THEN Bad ELSE Good(s[p], p + 1)
Decode32(s, p) == IF Valid(s[p]) THEN Good(s[p], p + 1) ELSE Bad
Decode(w, s, p) == IF p > Len(s) THEN Bad
                   ELSE CASE w = 1 -> Decode8(s, p) [] w = 2 -> Decode16(s, p) [] OTHER -> Decode32(s, p)

\* all code points, or <<None>> if the text is not valid
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(w, s, p, acc) ==
    IF p > Len(s) THEN acc
    ELSE LET r == Decode(w, s, p) IN IF r.ok THEN DecodeFrom(w, s, r.next, Append(acc, r.cp)) ELSE <<None>>
DecodeAll(w, s) == DecodeFrom(w, s, 1, <<>>)
IsValid(w, s) == DecodeAll(w, s) # <<None>>
EncodeAll(w, cps) == FlattenSeq([k \in 1..Len(cps) |-> Encode(w, cps[k])])

\* ---- escaping
Hex(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE HexDigits(_, _)
HexDigits(v, n) == IF n = 0 THEN <<>> ELSE Append(HexDigits(v \div 16, n - 1), Hex(v % 16))
Backslash == 92
u == 117
U == 85
Escape(prefix, c) ==
    IF c >= 32 /\ c <= 126 THEN <<c>>
    ELSE IF c < 65536 THEN <<Backslash, u>> \o HexDigits(c, 4)
    ELSE IF prefix = "u" THEN <<Backslash, u>> \o HexDigits(Encode16(c)[1], 4) \o <<Backslash, u>> \o HexDigits(Encode16(c)[2], 4)
    ELSE <<Backslash, U>> \o HexDigits(c, 8)
EscapeAll(prefix, cps) == FlattenSeq([k \in 1..Len(cps) |-> Escape(prefix, cps[k])])

IsHex(c) == (c >= 48 /\ c <= 57) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexValue(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexAt(s, p, n) == p + n - 1 <= Len(s) /\ \A k \in p..(p + n - 1) : IsHex(s[k])
\* numbers with eight digits which are not code points need not be told apart
HexNumber(s, p, n) ==
    LET Num[k \in 0..n] == IF k = 0 THEN 0 ELSE IF Num[k - 1] > 4000000 THEN Num[k - 1] ELSE Num[k - 1] * 16 + HexValue(s[p + k - 1])
    IN Num[n]
EscapeAt(s, p, letter) == p < Len(s) /\ s[p] = Backslash /\ s[p + 1] = letter
\* one escaped code point
Unescape(s, p) ==
    IF EscapeAt(s, p, u) /\ HexAt(s, p + 2, 4)
    THEN LET a == HexNumber(s, p + 2, 4)
         IN IF IsHigh(a)
            THEN IF EscapeAt(s, p + 6, u) /\ HexAt(s, p + 8, 4) /\ IsLow(HexNumber(s, p + 8, 4))
                 THEN Good(Pair(a, HexNumber(s, p + 8, 4)), p + 12) ELSE Bad
            ELSE IF IsLow(a) THEN Bad ELSE Good(a, p + 6)
    ELSE IF EscapeAt(s, p, U) /\ HexAt(s, p + 2, 8) /\ Valid(HexNumber(s, p + 2, 8))
    THEN Good(HexNumber(s, p + 2, 8), p + 10)
    ELSE Bad
RECURSIVE UnescapeFrom(_, _, _, _)
UnescapeFrom(w, s, p, acc) ==
    IF p > Len(s) THEN [ok |-> TRUE, out |-> acc]
    ELSE IF EscapeAt(s, p, u) \/ EscapeAt(s, p, U)
         THEN LET r == Unescape(s, p) IN IF r.ok THEN UnescapeFrom(w, s, r.next, acc \o Encode(w, r.cp)) ELSE [ok |-> FALSE, out |-> <<>>]
         ELSE UnescapeFrom(w, s, p + 1, Append(acc, s[p]))
UnescapeAll(w, s) == UnescapeFrom(w, s, 1, <<>>)
=============================================================================
