------------------------------ MODULE JsonText ------------------------------
(* JSON text as defined by RFC 8259, with comments and trailing commas where *)
(* they are asked for: what it denotes, and what a value is written as.      *)
EXTENDS JsonValue, UnicodeText, Numerals

\* ---- reading
Fail == [ok |-> FALSE, v |-> Null, next |-> 0]
Ok(v, p) == [ok |-> TRUE, v |-> v, next |-> p]
IsSpace(c) == c \in {9, 10, 13, 32}
First(from, to, P(_)) == \* the first position which satisfies P, or `to` + 1
    LET Hit[k \in from..(to + 1)] == IF k > to THEN k ELSE IF P(k) THEN k ELSE Hit[k + 1] IN IF from > to THEN to + 1 ELSE Hit[from]

RECURSIVE Skip(_, _, _)
Skip(t, p, comments) == \* white space and comments
    LET q == First(p, Len(t), LAMBDA k : ~IsSpace(t[k])) IN
    IF q > Len(t) \/ t[q] # 47 THEN [ok |-> TRUE, next |-> q]
    ELSE IF ~comments \/ q = Len(t) THEN [ok |-> FALSE, next |-> q]
    ELSE IF t[q + 1] = 47 THEN Skip(t, First(q + 2, Len(t), LAMBDA k : t[k] = 10) + 1, comments)
    ELSE IF t[q + 1] = 42
         THEN LET e == First(q + 2, Len(t) - 1, LAMBDA k : t[k] = 42 /\ t[k + 1] = 47)
              IN IF e > Len(t) - 1 THEN [ok |-> FALSE, next |-> q] ELSE Skip(t, e + 2, comments)
    ELSE [ok |-> FALSE, next |-> q]

\* the text between quotes, unescaped; <<None>> if it is not well-formed
RECURSIVE Unquoted(_, _, _)
Unquoted(s, p, acc) ==
    IF p > Len(s) THEN acc
    ELSE IF s[p] < 32 \/ s[p] = 34 THEN <<None>>
    ELSE IF s[p] # Backslash THEN Unquoted(s, p + 1, Append(acc, s[p]))
    ELSE IF p = Len(s) THEN <<None>>
    ELSE LET c == s[p + 1] IN
         IF c \in {34, 92, 47} THEN Unquoted(s, p + 2, Append(acc, c))
         ELSE IF c \in {98, 102, 110, 114, 116}
              THEN Unquoted(s, p + 2, Append(acc, CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] OTHER -> 9))
         ELSE IF c = u
              THEN LET r == Unescape(s, p) IN IF r.ok THEN Unquoted(s, r.next, acc \o Encode8(r.cp)) ELSE <<None>>
         ELSE <<None>>
Unquote(s) == IF IsValid(1, s) THEN Unquoted(s, 1, <<>>) ELSE <<None>>
RECURSIVE Quote(_, _)
Quote(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = 34 THEN p ELSE IF t[p] = Backslash THEN Quote(t, p + 2) ELSE Quote(t, p + 1)
StringAt(t, p) == \* the string which begins at p
    IF p > Len(t) \/ t[p] # 34 THEN Fail
    ELSE LET e == Quote(t, p + 1) IN
         IF e = 0 THEN Fail
         ELSE LET raw == Unquote(SubSeq(t, p + 1, e - 1)) IN IF raw = <<None>> THEN Fail ELSE Ok(<<"s", raw>>, e + 1)

\* numbers
RECURSIVE DropZeros(_)
DropZeros(d) == IF d # <<>> /\ d[1] = 0 THEN DropZeros(Tail(d)) ELSE d
RECURSIVE Fold10(_, _)
Fold10(d, acc) == IF d = <<>> THEN acc ELSE Fold10(Tail(d), acc * 10 + Head(d))
\* the number  d * 10^e
Decimal(neg, d, e) ==
    LET lead == DropZeros(d)
        core == Reverse(DropZeros(Reverse(lead)))
    IN IF core = <<>> THEN <<"f", neg, <<>>, 0>> ELSE <<"f", neg, core, e + Len(lead) - Len(core)>>
NumberAt(t, p) ==
    LET neg == p <= Len(t) /\ t[p] = 45
        a == IF neg THEN p + 1 ELSE p
        ip == DigitsAt(t, a, 10)
        b == a + Len(ip)
        dot == b <= Len(t) /\ t[b] = 46
        fp == IF dot THEN DigitsAt(t, b + 1, 10) ELSE <<>>
        c == IF dot THEN b + 1 + Len(fp) ELSE b
        e == c <= Len(t) /\ t[c] \in {69, 101}
        sign == e /\ c + 1 <= Len(t) /\ t[c + 1] \in {43, 45}
        x == IF e THEN DigitsAt(t, c + 1 + (IF sign THEN 1 ELSE 0), 10) ELSE <<>>
        next == IF e THEN c + 1 + (IF sign THEN 1 ELSE 0) + Len(x) ELSE c
        xneg == sign /\ t[c + 1] = 45
        ex == Fold10(DropZeros(x), 0) * (IF xneg THEN -1 ELSE 1)
        v == Strip(ip)
    IN IF \/ ip = <<>> \/ (Len(ip) > 1 /\ ip[1] = 0)
          \/ (dot /\ fp = <<>>) \/ (e /\ x = <<>>) THEN Fail
       ELSE IF dot \/ e
            THEN IF DropZeros(ip \o fp) = <<>> THEN Ok(<<"f", neg, <<>>, 0>>, next)
                 ELSE IF Len(DropZeros(x)) > 4 THEN Fail
                 ELSE IF ex - Len(fp) > 4930 \/ ex + Len(ip) < -4960 THEN Fail
                 ELSE Ok(Decimal(neg, ip \o fp, ex - Len(fp)), next)
       ELSE IF ~Fits(neg, v, 64, neg) THEN Fail
       ELSE Ok(IF neg THEN <<"i", v # <<0>>, v>> ELSE <<"u", FALSE, v>>, next)

At(t, p, word) == p + Len(word) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(word) - 1) = word
TrueWord == <<116, 114, 117, 101>>
FalseWord == <<102, 97, 108, 115, 101>>
NullWord == <<110, 117, 108, 108>>

RECURSIVE ValueAt(_, _, _), ArrayFrom(_, _, _, _), ObjectFrom(_, _, _, _)
\* f: the features [comments, trailing, any]
ValueAt(t, p, f) ==
    LET s == Skip(t, p, f.comments)
        q == s.next
    IN IF ~s.ok \/ q > Len(t) THEN Fail
       ELSE CASE t[q] = 123 -> ObjectFrom(t, q + 1, f, <<>>)
              [] t[q] = 91 -> ArrayFrom(t, q + 1, f, <<>>)
              [] t[q] = 34 -> StringAt(t, q)
              [] At(t, q, TrueWord) -> Ok(<<"b", TRUE>>, q + 4)
              [] At(t, q, FalseWord) -> Ok(<<"b", FALSE>>, q + 5)
              [] At(t, q, NullWord) -> Ok(Null, q + 4)
              [] OTHER -> NumberAt(t, q)
\* after the opening bracket or an element
ArrayFrom(t, p, f, acc) ==
    LET s == Skip(t, p, f.comments) IN
    IF ~s.ok \/ s.next > Len(t) THEN Fail
    ELSE IF t[s.next] = 93 THEN Ok(<<"a", acc>>, s.next + 1)
    ELSE IF acc # <<>> /\ t[s.next] # 44 THEN Fail
    ELSE LET m == IF acc = <<>> THEN s ELSE Skip(t, s.next + 1, f.comments) IN
         IF ~m.ok \/ m.next > Len(t) THEN Fail
         ELSE IF t[m.next] = 93 THEN IF f.trailing THEN Ok(<<"a", acc>>, m.next + 1) ELSE Fail
         ELSE LET r == ValueAt(t, m.next, f) IN IF r.ok THEN ArrayFrom(t, r.next, f, Append(acc, r.v)) ELSE Fail
ObjectFrom(t, p, f, acc) ==
    LET s == Skip(t, p, f.comments) IN
    IF ~s.ok \/ s.next > Len(t) THEN Fail
    ELSE IF t[s.next] = 125 THEN Ok(<<"o", acc>>, s.next + 1)
    ELSE IF acc # <<>> /\ t[s.next] # 44 THEN Fail
    ELSE LET m == IF acc = <<>> THEN s ELSE Skip(t, s.next + 1, f.comments) IN
         IF ~m.ok \/ m.next > Len(t) THEN Fail
         ELSE IF t[m.next] = 125 THEN IF f.trailing THEN Ok(<<"o", acc>>, m.next + 1) ELSE Fail
         ELSE LET key == StringAt(t, m.next)
                  colon == IF key.ok THEN Skip(t, key.next, f.comments) ELSE [ok |-> FALSE, next |-> 0]
              IN IF ~key.ok \/ ~colon.ok \/ colon.next > Len(t) \/ t[colon.next] # 58 THEN Fail
                 ELSE LET r == ValueAt(t, colon.next + 1, f)
                      IN IF r.ok THEN ObjectFrom(t, r.next, f, Assign(acc, key.v[2], r.v)) ELSE Fail

\* a whole text
Parse(t, f) ==
    LET r == ValueAt(t, 1, f)
        s == IF r.ok THEN Skip(t, r.next, f.comments) ELSE [ok |-> FALSE, next |-> 0]
    IN IF r.ok /\ s.ok /\ s.next > Len(t) /\ (f.any \/ IsContainer(r.v)) THEN r ELSE Fail

\* ---- writing
Escaped(c) ==
    CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>> [] c = 10 -> <<92, 110>>
      [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] OTHER -> Escape("u", c)
Quoted(bytes) == LET cps == DecodeAll(1, bytes) IN <<34>> \o FlattenSeq([k \in 1..Len(cps) |-> Escaped(cps[k])]) \o <<34>>
Chars(d) == [k \in 1..Len(d) |-> 48 + d[k]]
Minus(neg) == IF neg THEN <<45>> ELSE <<>>

\* Numbers with a fraction are written with six significant digits, rounded to nearest (if that is
\* half way, either way may be, because the number itself is not exactly a decimal one).
Zeros(n) == [k \in 1..n |-> 0]
Increment(d) == LET r == MulAdd(d, 1, 1) IN IF Len(r) < Len(d) THEN Zeros(Len(d) - Len(r)) \o r ELSE r
Rounded(v, n) == \* the digits and exponents which v can be rounded to
    LET d == v[3] IN
    IF Len(d) <= n THEN {v}
    ELSE LET low == Decimal(v[2], SubSeq(d, 1, n), v[4] + Len(d) - n)
             high == Decimal(v[2], Increment(SubSeq(d, 1, n)), v[4] + Len(d) - n)
             half == d[n + 1] = 5 /\ Len(d) = n + 1
         IN IF half THEN {low, high} ELSE IF d[n + 1] >= 5 THEN {high} ELSE {low}
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
General(v) == \* like %g
    LET d == v[3]
        x == v[4] + Len(d) - 1 \* the exponent of the first digit
        a == IF x < 0 THEN -x ELSE x
    IN IF d = <<>> THEN Minus(v[2]) \o <<48>>
       ELSE IF x < -4 \/ x >= 6
            THEN Minus(v[2]) \o Chars(<<d[1]>>) \o (IF Len(d) > 1 THEN <<46>> \o Chars(Tail(d)) ELSE <<>>)
                 \o <<101, IF x < 0 THEN 45 ELSE 43>> \o Chars(IF a < 10 THEN <<0, a>> ELSE DigitsOf(a))
       ELSE IF x < 0 THEN Minus(v[2]) \o <<48, 46>> \o Chars(Zeros(a - 1)) \o Chars(d)
       ELSE IF Len(d) <= x + 1 THEN Minus(v[2]) \o Chars(d \o Zeros(x + 1 - Len(d)))
       ELSE Minus(v[2]) \o Chars(SubSeq(d, 1, x + 1)) \o <<46>> \o Chars(SubSeq(d, x + 2, Len(d)))
FloatTexts(v) == {General(r) : r \in Rounded(v, 6)}

RECURSIVE Texts(_), Joined(_, _)
Joined(sets, sep) == \* every choice of one text from each set, with separators
    IF sets = <<>> THEN {<<>>} ELSE IF Len(sets) = 1 THEN sets[1]
    ELSE {a \o sep \o b : a \in sets[1], b \in Joined(Tail(sets), sep)}
Texts(v) == \* what v may be written as: exactly one text, except for halves
    CASE IsA(v, "n") -> {NullWord}
      [] IsA(v, "b") -> {IF v[2] THEN TrueWord ELSE FalseWord}
      [] v[1] \in {"i", "u"} -> {Minus(v[2]) \o Chars(v[3])}
      [] IsA(v, "f") -> FloatTexts(v)
      [] IsA(v, "s") -> {Quoted(v[2])}
      [] IsA(v, "a") -> {<<91>> \o x \o <<93>> : x \in Joined([k \in 1..Len(v[2]) |-> Texts(v[2][k])], <<44>>)}
      [] OTHER -> {<<123>> \o x \o <<125>> :
                     x \in Joined([k \in 1..Len(v[2]) |-> {Quoted(v[2][k][1]) \o <<58>> \o y : y \in Texts(v[2][k][2])}], <<44>>)}
=============================================================================
