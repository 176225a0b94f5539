------------------------------ MODULE Numerals ------------------------------
(* Numbers written as digits.  Values are sequences of decimal digits without *)
(* leading zeros, because TLC's integers are too small for what is handled.   *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip(Tail(d)) ELSE d
\* comparison of values
Less(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k - 1) : a[j] = b[j]
AtMost(a, b) == a = b \/ Less(a, b)

\* value * base + digit
RECURSIVE Carry(_, _, _, _)
Carry(d, k, base, c) == \* from the last digit on
    IF k = 0 THEN IF c = 0 THEN <<>> ELSE Append(Carry(d, 0, base, c \div 10), c % 10)
    ELSE Append(Carry(d, k - 1, base, (d[k] * base + c) \div 10), (d[k] * base + c) % 10)
MulAdd(d, base, digit) == Strip(Carry(d, Len(d), base, digit))
RECURSIVE ValueOf(_, _, _)
ValueOf(base, ds, acc) == IF ds = <<>> THEN acc ELSE ValueOf(base, Tail(ds), MulAdd(acc, base, Head(ds)))
Value(base, ds) == IF base = 10 THEN Strip(ds) ELSE ValueOf(base, ds, <<0>>)

Largest(bits, signed) ==
    CASE bits = 8 /\ signed -> <<1, 2, 7>>
      [] bits = 8 /\ ~signed -> <<2, 5, 5>>
      [] bits = 16 /\ signed -> <<3, 2, 7, 6, 7>>
      [] bits = 16 /\ ~signed -> <<6, 5, 5, 3, 5>>
      [] bits = 32 /\ signed -> <<2, 1, 4, 7, 4, 8, 3, 6, 4, 7>>
      [] bits = 32 /\ ~signed -> <<4, 2, 9, 4, 9, 6, 7, 2, 9, 5>>
      [] bits = 64 /\ signed -> <<9, 2, 2, 3, 3, 7, 2, 0, 3, 6, 8, 5, 4, 7, 7, 5, 8, 0, 7>>
      [] bits = 64 /\ ~signed -> <<1, 8, 4, 4, 6, 7, 4, 4, 0, 7, 3, 7, 0, 9, 5, 5, 1, 6, 1, 5>>
\* the magnitude of the smallest value
MinMagnitude(bits, signed) == IF signed THEN MulAdd(Largest(bits, TRUE), 1, 1) ELSE <<0>>
Fits(neg, value, bits, signed) == AtMost(value, IF neg THEN MinMagnitude(bits, signed) ELSE Largest(bits, signed))

\* ---- digits as characters
Digit(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE 99
DigitsAt(s, p, base) == \* as many as there are from position p on
    LET stop == {k \in p..Len(s) : Digit(s[k]) >= base}
        end == IF stop = {} THEN Len(s) + 1 ELSE CHOOSE k \in stop : \A j \in stop : k <= j
    IN [k \in 1..(end - p) |-> Digit(s[p + k - 1])]

\* ---- a whole string as a number: [ok, neg, value]
NoNumber == [ok |-> FALSE, neg |-> FALSE, value |-> <<>>]
ToInteger(s, bits, signed) ==
    LET neg == signed /\ s # <<>> /\ s[1] = 45
        from == IF neg THEN 2 ELSE 1
        ds == DigitsAt(s, from, 10)
        v == Strip(ds)
    IN IF ds # <<>> /\ Len(ds) = Len(s) - from + 1 /\ Fits(neg, v, bits, signed)
       THEN [ok |-> TRUE, neg |-> neg /\ v # <<0>>, value |-> v] ELSE NoNumber

\* ---- a whole string as a floating point number: [ok, neg, class, x, ds], the
\* value being 0.d1 d2 d3... * 10^(x + 1), without leading or trailing zeros
RECURSIVE Unpad(_)
Unpad(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Unpad(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Capped(_, _)
Capped(d, acc) == IF d = <<>> \/ acc > 100000 THEN acc ELSE Capped(Tail(d), acc * 10 + Head(d))
Lower(s) == [k \in 1..Len(s) |-> IF s[k] \in 65..90 THEN s[k] + 32 ELSE s[k]]
NoReal == [ok |-> FALSE, neg |-> FALSE, class |-> "none", x |-> 0, ds |-> <<>>]
ToReal(s) ==
    LET neg == s # <<>> /\ s[1] = 45
        from == IF neg THEN 2 ELSE 1
        word == Lower(SubSeq(s, from, Len(s)))
        whole == DigitsAt(s, from, 10)
        p1 == from + Len(whole)
        dot == p1 <= Len(s) /\ s[p1] = 46
        part == IF dot THEN DigitsAt(s, p1 + 1, 10) ELSE <<>>
        p2 == IF dot THEN p1 + 1 + Len(part) ELSE p1
        exp == p2 <= Len(s) /\ s[p2] \in {101, 69}
        sgn == exp /\ p2 < Len(s) /\ s[p2 + 1] \in {43, 45}
        p3 == IF sgn THEN p2 + 2 ELSE p2 + 1
        xs == IF exp THEN DigitsAt(s, p3, 10) ELSE <<>>
        end == IF exp THEN p3 + Len(xs) ELSE p2
        good == whole \o part # <<>> /\ (exp => xs # <<>>) /\ end = Len(s) + 1
        e == Capped(xs, 0) * (IF sgn /\ s[p2 + 1] = 45 THEN -1 ELSE 1)
        all == whole \o part
        nz == {k \in 1..Len(all) : all[k] # 0}
        first == CHOOSE k \in nz : \A j \in nz : k <= j
    IN IF word \in {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>} THEN [NoReal EXCEPT !.ok = TRUE, !.neg = neg, !.class = "inf"]
       ELSE IF word = <<110, 97, 110>> THEN [NoReal EXCEPT !.ok = TRUE, !.class = "nan"]
       ELSE IF ~good THEN NoReal
       ELSE IF nz = {} THEN [NoReal EXCEPT !.ok = TRUE, !.neg = neg, !.class = "zero"]
       ELSE [ok |-> TRUE, neg |-> neg, class |-> "finite", x |-> Len(whole) - first + e, ds |-> Unpad(SubSeq(all, first, Len(all)))]

\* comparison of positive values, each digits and the power of ten of the first
DigitOf(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
LessDigits(a, b) == \E k \in 1..Len(b) : DigitOf(a, k) < b[k] /\ \A j \in 1..(k - 1) : DigitOf(a, j) = b[j]
LessReal(xa, a, xb, b) == IF a = <<>> THEN b # <<>> ELSE b # <<>> /\ (xa < xb \/ (xa = xb /\ LessDigits(a, b)))

\* what the types hold: the values which may be refused are those above (the first
\* digits of) the largest and those below the smallest normal one
LargestReal(precision) ==
    CASE precision = 24 -> [x |-> 38, ds |-> <<3, 4, 0, 2, 8, 2, 3>>]
      [] precision = 53 -> [x |-> 308, ds |-> <<1, 7, 9, 7, 6, 9, 3, 1, 3, 4, 8, 6, 2, 3, 1, 5>>]
      [] precision = 64 -> [x |-> 4932, ds |-> <<1, 1, 8, 9, 7, 3, 1, 4, 9, 5, 3, 5, 7, 2, 3, 1, 7, 6>>]
SmallestReal(precision) == CASE precision = 24 -> -37 [] precision = 53 -> -307 [] precision = 64 -> -4931
Refusable(precision, r) ==
    /\ r.class = "finite"
    /\ \/ r.x < SmallestReal(precision)
       \/ ~LessReal(r.x, r.ds, LargestReal(precision).x, LargestReal(precision).ds)
\* the value nearest to what is written lies between its halves to its neighbours,
\* on which the one with the even mantissa is chosen
NearestReal(r, low, high, even) ==
    /\ IF even THEN ~LessReal(r.x, r.ds, low.x, low.ds) ELSE LessReal(low.x, low.ds, r.x, r.ds)
    /\ IF even THEN ~LessReal(high.x, high.ds, r.x, r.ds) ELSE LessReal(r.x, r.ds, high.x, high.ds)

\* ---- literals: 0b, 0x, 0 and plain, with separators
Literal(s, bits, signed) ==
    LET pre2 == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {98, 66}
        pre16 == Len(s) > 2 /\ s[1] = 48 /\ s[2] \in {120, 88}
        base == IF pre2 THEN 2 ELSE IF pre16 THEN 16 ELSE IF s[1] = 48 /\ Len(s) > 1 THEN 8 ELSE 10
        body == SelectSeq(IF pre2 \/ pre16 THEN SubSeq(s, 3, Len(s)) ELSE s, LAMBDA c : c # 39)
        v == Value(base, [k \in 1..Len(body) |-> Digit(body[k])])
    IN IF Fits(FALSE, v, bits, signed) THEN [ok |-> TRUE, neg |-> FALSE, value |-> v] ELSE NoNumber
=============================================================================
