------------------------------- MODULE Address -------------------------------
(* What texts are IP addresses and endpoints, what they mean, and how         *)
(* addresses are written.  Texts are sequences of byte values.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Colon == 58
Dot == 46
Digit(c) == c >= 48 /\ c <= 57
HexDigit(c) == Digit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexValue(c) == IF c >= 97 THEN c - 87 ELSE IF c >= 65 THEN c - 55 ELSE c - 48
No == [ok |-> FALSE, octets |-> <<>>, port |-> 0]
Yes(o) == [ok |-> TRUE, octets |-> o, port |-> 0]

\* The parts of a text between separators.
Parts(t, sep) ==
    LET at == SetToSortSeq({i \in 1..Len(t) : t[i] = sep}, <)
        n == Len(at)
        from(k) == IF k = 1 THEN 1 ELSE at[k - 1] + 1
        to(k) == IF k = n + 1 THEN Len(t) ELSE at[k] - 1
    IN [k \in 1..(n + 1) |-> SubSeq(t, from(k), to(k))]

AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : Digit(t[i])
\* A decimal number as `width` octets, or <<>> if it does not fit.
RECURSIVE Accumulate(_, _, _)
Times10Plus(o, d) ==   \* octets, most significant first; the carry comes first
    LET n == Len(o)
        c[i \in 0..n] == IF i = 0 THEN d ELSE (o[n + 1 - i] * 10 + c[i - 1]) \div 256
    IN [carry |-> c[n], octets |-> [i \in 1..n |-> (o[i] * 10 + c[n - i]) % 256]]
Accumulate(t, i, o) ==
    IF i > Len(t) THEN o
    ELSE LET r == Times10Plus(o, t[i] - 48) IN IF r.carry > 0 THEN <<>> ELSE Accumulate(t, i + 1, r.octets)
Number(t, width) == IF AllDigits(t) THEN Accumulate(t, 1, [i \in 1..width |-> 0]) ELSE <<>>

\* One to four numbers; the last one fills the remaining octets.
V4(t) ==
    LET p == Parts(t, Dot)
        n == Len(p)
    IN IF n > 4 THEN No
       ELSE LET v == [k \in 1..n |-> Number(p[k], IF k = n THEN 5 - n ELSE 1)]
            IN IF \E k \in 1..n : v[k] = <<>> THEN No ELSE Yes(FlattenSeq(v))

IsGroup(t) == t # <<>> /\ Len(t) <= 4 /\ \A i \in 1..Len(t) : HexDigit(t[i])
\* What a group of more than four digits means is left open if it begins with a zero.
LeftOpen(t) == \E i \in 1..(Len(t) - 4) : /\ t[i] = 48 /\ (IF i = 1 THEN TRUE ELSE ~HexDigit(t[i - 1]))
                                          /\ \A k \in i..(i + 4) : HexDigit(t[k])
GroupValue(t) == FoldLeft(LAMBDA acc, c : acc * 16 + HexValue(c), 0, t)
Groups(t) == IF t = <<>> THEN <<>> ELSE Parts(t, Colon)
Octets(gs) == FlattenSeq([k \in 1..Len(gs) |-> <<GroupValue(gs[k]) \div 256, GroupValue(gs[k]) % 256>>])
\* Eight groups, or fewer with one "::" for those which are zero.
V6(t) ==
    LET doubles == {i \in 1..(Len(t) - 1) : t[i] = Colon /\ t[i + 1] = Colon}
    IN IF Cardinality(doubles) > 1 THEN No
       ELSE IF doubles = {}
            THEN LET g == Groups(t) IN IF Len(g) = 8 /\ \A k \in 1..8 : IsGroup(g[k]) THEN Yes(Octets(g)) ELSE No
            ELSE LET i == CHOOSE i \in doubles : TRUE
                     a == Groups(SubSeq(t, 1, i - 1))
                     b == Groups(SubSeq(t, i + 2, Len(t)))
                 IN IF Len(a) + Len(b) <= 7 /\ (\A k \in 1..Len(a) : IsGroup(a[k])) /\ (\A k \in 1..Len(b) : IsGroup(b[k]))
                    THEN Yes(Octets(a) \o [k \in 1..(16 - 2 * (Len(a) + Len(b))) |-> 0] \o Octets(b))
                    ELSE No

\* An address, a colon, and a port; IPv6 addresses in brackets.
Endpoint(t, six) ==
    LET colons == {i \in 1..Len(t) : t[i] = Colon}
    IN IF colons = {} THEN No
       ELSE LET at == Max(colons)
                host == SubSeq(t, 1, at - 1)
                port == Number(SubSeq(t, at + 1, Len(t)), 2)
                bracketed == Len(host) >= 2 /\ host[1] = 91 /\ host[Len(host)] = 93
                a == IF ~six THEN V4(host) ELSE IF bracketed THEN V6(SubSeq(host, 2, Len(host) - 1)) ELSE No
            IN IF a.ok /\ port # <<>> THEN [a EXCEPT !.port = port[1] * 256 + port[2]] ELSE No

RECURSIVE Decimal(_), Hex(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(n) == IF n < 16 THEN <<HexChar(n)>> ELSE Hex(n \div 16) \o <<HexChar(n % 16)>>
Show4(o) == Decimal(o[1]) \o <<Dot>> \o Decimal(o[2]) \o <<Dot>> \o Decimal(o[3]) \o <<Dot>> \o Decimal(o[4])
\* The first run of zero groups is written as "::".
Show6(o) ==
    LET g == [k \in 1..8 |-> o[2 * k - 1] * 256 + o[2 * k]]
        zeros == {k \in 1..8 : g[k] = 0}
        join(from, to) == FlattenSeq([k \in 1..(to - from + 1) |-> (IF k > 1 THEN <<Colon>> ELSE <<>>) \o Hex(g[from + k - 1])])
    IN IF zeros = {} THEN join(1, 8)
       ELSE LET first == Min(zeros)
                last == Max({k \in first..8 : \A m \in first..k : g[m] = 0})
            IN join(1, first - 1) \o <<Colon, Colon>> \o join(last + 1, 8)
Less6(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A k \in 1..(i - 1) : a[k] = b[k]
\* IPv4 addresses are ordered by their value in network order, as a little endian machine reads it.
LessA(a, b) == Less6(IF Len(a) = 4 THEN Reverse(a) ELSE a, IF Len(b) = 4 THEN Reverse(b) ELSE b)
LessE(a, p, b, q) == LessA(a, b) \/ (a = b /\ p < q)
=============================================================================
