----------------------------- MODULE FormatText -----------------------------
(* Format strings and what they are replaced by: the grammar of replacement  *)
(* fields, the conditions on their options, and the text of every value.     *)
(* Characters are numbers; numbers are sequences of digits.                  *)
EXTENDS Numerals, UnicodeText

LBrace == 123
RBrace == 125
Zero == 48
Space == 32
At(s, p) == IF p >= 1 /\ p <= Len(s) THEN s[p] ELSE -1
Rep(c, n) == [k \in 1..n |-> c]

\* ============================================================== grammar
Aligns == {60, 62, 94}                         \* < > ^
Signs == {43, 45, 32}
TypeChars == {99, 115, 112, 98, 66, 111, 100, 120, 88, 97, 65, 101, 69, 102, 70, 103, 71}
IsUpperType(c) == c \in {66, 88, 65, 69, 70, 71}
Presentation(c) ==
    CASE c = 99 -> "char" [] c = 115 -> "string" [] c = 112 -> "pointer" [] c \in {98, 66} -> "bin" [] c = 111 -> "oct"
      [] c = 100 -> "dec" [] c \in {120, 88} -> "hex" [] c \in {97, 65} -> "hexfloat" [] c \in {101, 69} -> "sci"
      [] c \in {102, 70} -> "fixed" [] OTHER -> "general"
Inferred(kind) ==
    CASE kind = "char" -> "char" [] kind = "string" -> "string" [] kind = "pointer" -> "pointer" [] kind = "int" -> "dec"
      [] kind = "float" -> "general" [] kind = "bool" -> "string" [] OTHER -> "none"
Integers == {"char", "bin", "oct", "dec", "hex"}
Floats == {"hexfloat", "sci", "fixed", "general"}
Numeric == (Integers \ {"char"}) \cup Floats
Allowed(kind) ==
    CASE kind = "char" -> Integers [] kind = "int" -> Integers [] kind = "string" -> {"string"} [] kind = "styled" -> {"none", "string"}
      [] kind = "pointer" -> {"pointer"} [] kind = "float" -> Floats [] kind = "bool" -> Integers \cup {"string"}

\* a number written at p, cut at 10000
ToNat(ds) == LET N[k \in 0..Len(ds)] == IF k = 0 THEN 0 ELSE IF N[k - 1] > 9999 THEN 10000 ELSE N[k - 1] * 10 + ds[k] IN N[Len(ds)]
NumberAt(s, p) == LET ds == DigitsAt(s, p, 10) IN [has |-> ds # <<>>, value |-> ToNat(ds), next |-> p + Len(ds)]

\* the state between fields: how many arguments were taken in order, and how arguments are chosen
Start == [auto |-> 0, mode |-> "open"]
Place(s, p, st) ==
    LET n == NumberAt(s, p) IN
    IF n.has THEN [ok |-> st.mode # "auto", pos |-> n.value, next |-> n.next, st |-> [st EXCEPT !.mode = "manual"]]
    ELSE [ok |-> st.mode # "manual", pos |-> st.auto, next |-> p, st |-> [auto |-> st.auto + 1, mode |-> "auto"]]
\* "{" [position] "}", or a number, or nothing, from p on
NestedOrNumber(s, p, st) ==
    IF At(s, p) = LBrace
    THEN LET q == Place(s, p + 1, st)
         IN [ok |-> q.ok /\ At(s, q.next) = RBrace, is |-> "argument", value |-> q.pos, next |-> q.next + 1, st |-> q.st]
    ELSE LET n == NumberAt(s, p)
         IN [ok |-> TRUE, is |-> IF n.has THEN "number" ELSE "none", value |-> n.value, next |-> n.next, st |-> st]

Plain(pos, kind) ==
    [pos |-> pos, fill |-> -1, align |-> 0, sign |-> 0, alt |-> FALSE, zero |-> FALSE, widthIs |-> "none", width |-> 0,
     precIs |-> "none", prec |-> 0, locale |-> FALSE, type |-> Inferred(kind), upper |-> FALSE, option |-> FALSE]
NoField == [ok |-> FALSE]

\* the options from p on, of an argument of the kind
Options(s, p, pos, st0, kind, kinds) ==
    LET filled == At(s, p + 1) \in Aligns
        fill == IF filled THEN At(s, p) ELSE -1
        p1 == IF filled THEN p + 1 ELSE p
        align == IF At(s, p1) \in Aligns THEN At(s, p1) ELSE 0
        p2 == IF align # 0 THEN p1 + 1 ELSE p1
        sign == IF At(s, p2) \in Signs THEN At(s, p2) ELSE 0
        p3 == IF sign # 0 THEN p2 + 1 ELSE p2
        alt == At(s, p3) = 35
        p4 == IF alt THEN p3 + 1 ELSE p3
        zeroed == At(s, p4) = Zero
        zero == zeroed /\ align = 0
        p5 == IF zeroed THEN p4 + 1 ELSE p4
        w == NestedOrNumber(s, p5, st0)
        dot == At(s, w.next) = 46
        r == IF dot THEN NestedOrNumber(s, w.next + 1, w.st) ELSE [ok |-> TRUE, is |-> "none", value |-> 0, next |-> w.next, st |-> w.st]
        locale == At(s, r.next) = 76
        p6 == IF locale THEN r.next + 1 ELSE r.next
        typed == At(s, p6) \in TypeChars
        type == IF typed THEN Presentation(At(s, p6)) ELSE Inferred(kind)
        p7 == IF typed THEN p6 + 1 ELSE p6
        IsInt(i) == i < Len(kinds) /\ kinds[i + 1] \in {"int"}
        ok == /\ w.ok /\ r.ok /\ (dot => r.is # "none")
              /\ At(s, p7) = RBrace
              /\ filled => fill \notin {LBrace, RBrace} /\ fill < 128
              /\ sign # 0 => type \in Numeric
              /\ alt => type \in Numeric \ {"dec"}
              /\ zero => type \in Numeric
              /\ w.is = "number" => w.value > 0
              /\ w.is = "argument" => IsInt(w.value)
              /\ dot => kind \in {"string", "styled", "float"}
              /\ r.is = "argument" => IsInt(r.value)
              /\ locale => kind \in {"int", "float", "bool"}
              /\ type \in Allowed(kind)
    IN IF ~ok THEN NoField
       ELSE [ok |-> TRUE, next |-> p7 + 1, st |-> r.st,
             field |-> [pos |-> pos, fill |-> fill, align |-> align, sign |-> sign, alt |-> alt, zero |-> zero,
                        widthIs |-> w.is, width |-> w.value, precIs |-> r.is, prec |-> r.value, locale |-> locale,
                        type |-> type, upper |-> typed /\ IsUpperType(At(s, p6)), option |-> FALSE]]

\* a field, from the character after its brace on
Field(s, p, st, kinds) ==
    LET q == Place(s, p, st) IN
    IF ~q.ok \/ q.pos >= Len(kinds) THEN NoField
    ELSE LET kind == kinds[q.pos + 1] IN
         IF At(s, q.next) = RBrace THEN [ok |-> TRUE, next |-> q.next + 1, st |-> q.st, field |-> Plain(q.pos, kind)]
         ELSE IF At(s, q.next) # 58 THEN NoField
         ELSE IF kind = "plain" \* a type of the user, without options
              THEN IF At(s, q.next + 1) = RBrace THEN [ok |-> TRUE, next |-> q.next + 2, st |-> q.st, field |-> Plain(q.pos, kind)] ELSE NoField
         ELSE IF kind = "option" \* one with options of its own
              THEN LET o == At(s, q.next + 1) = 111
                       e == IF o THEN q.next + 2 ELSE q.next + 1
                   IN IF At(s, e) = RBrace
                      THEN [ok |-> TRUE, next |-> e + 1, st |-> q.st, field |-> [Plain(q.pos, kind) EXCEPT !.option = o]] ELSE NoField
         ELSE Options(s, q.next + 1, q.pos, q.st, kind, kinds)

\* the whole: literal characters and fields
Bounded == 64
RECURSIVE Scan(_, _, _, _, _, _)
Scan(s, p, st, kinds, n, acc) ==
    IF p > Len(s) THEN [ok |-> TRUE, parts |-> acc]
    ELSE IF s[p] = LBrace
         THEN IF At(s, p + 1) = LBrace THEN Scan(s, p + 2, st, kinds, n, Append(acc, [is |-> "char", c |-> LBrace]))
              ELSE IF n >= Bounded THEN [ok |-> FALSE, parts |-> <<>>]
              ELSE LET f == Field(s, p + 1, st, kinds)
                   IN IF f.ok THEN Scan(s, f.next, f.st, kinds, n + 1, Append(acc, [is |-> "field", f |-> f.field])) ELSE [ok |-> FALSE, parts |-> <<>>]
    ELSE IF s[p] = RBrace
         THEN IF At(s, p + 1) = RBrace THEN Scan(s, p + 2, st, kinds, n, Append(acc, [is |-> "char", c |-> RBrace])) ELSE [ok |-> FALSE, parts |-> <<>>]
    ELSE Scan(s, p + 1, st, kinds, n, Append(acc, [is |-> "char", c |-> s[p]]))
Parsed(s, kinds) == Scan(s, 1, Start, kinds, 0, <<>>)
Accepted(s, kinds) == Parsed(s, kinds).ok

\* ============================================================== layout
\* prefix: sign and base, which come before padding with zeros
Layout(f, width, prefix, body, right) ==
    LET size == Len(prefix) + Len(body)
        pad == IF width > size THEN width - size ELSE 0
        c == IF f.fill >= 0 THEN f.fill ELSE Space
        align == IF f.align # 0 THEN f.align ELSE IF right THEN 62 ELSE 60
    IN IF f.align = 0 /\ f.zero THEN prefix \o Rep(Zero, pad) \o body
       ELSE CASE align = 60 -> prefix \o body \o Rep(c, pad)
              [] align = 62 -> Rep(c, pad) \o prefix \o body
              [] align = 94 -> Rep(c, pad \div 2) \o prefix \o body \o Rep(c, pad - pad \div 2)

Chars(ds) == [k \in 1..Len(ds) |-> Zero + ds[k]]
HexChar(d, upper) == IF d < 10 THEN Zero + d ELSE IF upper THEN 55 + d ELSE 87 + d
Upper(s) == [k \in 1..Len(s) |-> IF s[k] >= 97 /\ s[k] <= 122 THEN s[k] - 32 ELSE s[k]]
SignChars(f, neg) == IF neg THEN <<45>> ELSE IF f.sign = 43 THEN <<43>> ELSE IF f.sign = 32 THEN <<32>> ELSE <<>>

\* ============================================================== integers, as bits
RECURSIVE Trim(_)
Trim(bits) == IF Len(bits) > 1 /\ bits[1] = 0 THEN Trim(Tail(bits)) ELSE bits
RECURSIVE Grouped(_, _)
Grouped(bits, n) == \* digits of n bits each
    IF Len(bits) <= n THEN <<LET N[k \in 0..Len(bits)] == IF k = 0 THEN 0 ELSE 2 * N[k - 1] + bits[k] IN N[Len(bits)]>>
    ELSE Append(Grouped(SubSeq(bits, 1, Len(bits) - n), n), Grouped(SubSeq(bits, Len(bits) - n + 1, Len(bits)), n)[1])
InBase(bits, type, upper) ==
    CASE type = "bin" -> Chars(Trim(bits))
      [] type = "oct" -> Chars(Grouped(Trim(bits), 3))
      [] type = "hex" -> LET g == Grouped(Trim(bits), 4) IN [k \in 1..Len(g) |-> HexChar(g[k], upper)]
      [] type = "dec" -> Chars(Value(2, Trim(bits)))
BasePrefix(f) ==
    IF ~f.alt THEN <<>>
    ELSE CASE f.type = "bin" -> <<Zero, IF f.upper THEN 66 ELSE 98>> [] f.type = "hex" -> <<Zero, IF f.upper THEN 88 ELSE 120>> [] OTHER -> <<Zero>>
Integer(f, width, neg, bits) == Layout(f, width, SignChars(f, neg) \o BasePrefix(f), InBase(bits, f.type, f.upper), TRUE)
\* as a character: one which does not exist is left out
Character(f, width, neg, bits, limit) ==
    LET t == Trim(bits) IN
    IF neg \/ Len(t) > limit THEN <<>> ELSE Layout(f, width, <<>>, <<Grouped(t, 31)[1]>>, TRUE)

\* ============================================================== floating point numbers
\* the exact value is 0.d1 d2 d3 ... * 10^exp, without leading zeros (and <<>> for zero)
Digit0(d, k) == IF k >= 1 /\ k <= Len(d) THEN d[k] ELSE 0
RECURSIVE Increment(_)
Increment(d) == IF d = <<>> THEN <<1>>
                ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
                ELSE Append(Increment(SubSeq(d, 1, Len(d) - 1)), 0)
\* the first n digits, rounded to the nearest, and to even in the middle; one digit longer if carried
Rounded(d, n) ==
    IF n < 0 THEN <<>>
    ELSE LET kept == [k \in 1..n |-> Digit0(d, k)]
             rest == SubSeq(d, n + 1, Len(d))
             half == rest # <<>> /\ rest[1] = 5 /\ \A k \in 2..Len(rest) : rest[k] = 0
             odd == n > 0 /\ Digit0(kept, n) % 2 = 1
             up == rest # <<>> /\ rest[1] >= 5 /\ (half => odd)
         IN IF up THEN Increment(kept) ELSE kept
PadLeft(d, n) == IF Len(d) < n THEN [k \in 1..(n - Len(d)) |-> 0] \o d ELSE d
\* [int, frac, exp]: the digits before the point, those after it, and the exponent as text
FixedDigits(d, exp, prec) ==
    LET r == PadLeft(Rounded(d, exp + prec), prec + 1)
        n == Len(r) - prec
    IN [int |-> Strip(SubSeq(r, 1, n)), frac |-> SubSeq(r, n + 1, Len(r)), exp |-> <<>>]
Exponent(x, letter) ==
    LET a == IF x < 0 THEN 0 - x ELSE x
        ds == IF a < 10 THEN <<0, a>> ELSE IF a < 100 THEN <<a \div 10, a % 10>>
              ELSE IF a < 1000 THEN <<a \div 100, (a \div 10) % 10, a % 10>> ELSE <<a \div 1000, (a \div 100) % 10, (a \div 10) % 10, a % 10>>
    IN <<letter, IF x < 0 THEN 45 ELSE 43>> \o Chars(ds)
SciParts(d, exp, prec) == \* [digits, x]
    IF d = <<>> THEN [d |-> [k \in 1..(prec + 1) |-> 0], x |-> 0]
    ELSE LET r == Rounded(d, prec + 1)
         IN IF Len(r) > prec + 1 THEN [d |-> SubSeq(r, 1, prec + 1), x |-> exp] ELSE [d |-> r, x |-> exp - 1]
SciDigits(d, exp, prec) ==
    LET q == SciParts(d, exp, prec) IN [int |-> <<q.d[1]>>, frac |-> Tail(q.d), exp |-> Exponent(q.x, 101)]
RECURSIVE Cut(_)
Cut(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN Cut(SubSeq(d, 1, Len(d) - 1)) ELSE d
GeneralDigits(d, exp, prec, alt) ==
    LET pr == IF prec = 0 THEN 1 ELSE prec
        x == SciParts(d, exp, pr - 1).x
        r == IF pr > x /\ x >= -4 THEN FixedDigits(d, exp, pr - 1 - x) ELSE SciDigits(d, exp, pr - 1)
    IN IF alt THEN r ELSE [r EXCEPT !.frac = Cut(@)]
\* lead.nibbles * 2^x, rounded to prec digits
RECURSIVE IncrementHex(_)
IncrementHex(d) == IF d[Len(d)] < 15 \/ Len(d) = 1 THEN [d EXCEPT ![Len(d)] = @ + 1]
                   ELSE Append(IncrementHex(SubSeq(d, 1, Len(d) - 1)), 0)
HexExponent(x) ==
    LET a == IF x < 0 THEN 0 - x ELSE x
        ds == IF a < 10 THEN <<a>> ELSE IF a < 100 THEN <<a \div 10, a % 10>>
              ELSE IF a < 1000 THEN <<a \div 100, (a \div 10) % 10, a % 10>> ELSE <<a \div 1000, (a \div 100) % 10, (a \div 10) % 10, a % 10>>
    IN <<112, IF x < 0 THEN 45 ELSE 43>> \o Chars(ds)
HexFloat(lead, nibbles, x, prec) ==
    LET all == <<lead>> \o nibbles
        kept == [k \in 1..(prec + 1) |-> Digit0(all, k)]
        rest == SubSeq(all, prec + 2, Len(all))
        half == rest # <<>> /\ rest[1] = 8 /\ \A k \in 2..Len(rest) : rest[k] = 0
        up == rest # <<>> /\ rest[1] >= 8 /\ (half => kept[prec + 1] % 2 = 1)
        r == IF up THEN IncrementHex(kept) ELSE kept
    IN [int |-> <<r[1]>>, frac |-> Tail(r), exp |-> HexExponent(x)]
\* v: [class, neg, d, exp, lead, nibbles, x]
FloatBody(f, v, prec) ==
    IF v.class = "inf" THEN <<105, 110, 102>> ELSE IF v.class = "nan" THEN <<110, 97, 110>>
    ELSE LET r == CASE f.type = "fixed" -> FixedDigits(v.d, v.exp, prec)
                    [] f.type = "sci" -> SciDigits(v.d, v.exp, prec)
                    [] f.type = "general" -> GeneralDigits(v.d, v.exp, prec, f.alt)
                    [] f.type = "hexfloat" -> HexFloat(v.lead, v.nibbles, v.x, prec)
             Hexed(ds) == [k \in 1..Len(ds) |-> HexChar(ds[k], FALSE)]
         IN Hexed(r.int) \o (IF r.frac # <<>> \/ f.alt THEN <<46>> ELSE <<>>) \o Hexed(r.frac) \o r.exp
Float(f, width, v, prec) ==
    LET b == FloatBody(f, v, prec)
    IN Layout(f, width, SignChars(f, v.neg), IF f.upper THEN Upper(b) ELSE b, TRUE)

\* ============================================================== values
\* arguments: [k: kind] and by kind [neg, bits], [v], [t, w, units], [class, ...]; out: [t: type of characters, w: their bytes, limit: their bits]
True4 == <<116, 114, 117, 101>>
False5 == <<102, 97, 108, 115, 101>>
ArgNat(a) == IF a.neg THEN 0 ELSE LET t == Trim(a.bits) IN IF Len(t) > 20 THEN 1000000 ELSE Grouped(t, 31)[1]
Width(f, args) == IF f.widthIs = "none" THEN 0 ELSE IF f.widthIs = "number" THEN f.width ELSE ArgNat(args[f.width + 1])
\* what is used if there is no precision, or a negative one
Precision(f, args, default) ==
    IF f.precIs = "none" THEN default ELSE IF f.precIs = "number" THEN f.prec
    ELSE IF args[f.prec + 1].neg THEN default ELSE ArgNat(args[f.prec + 1])
Ascii(s) == \A k \in 1..Len(s) : s[k] < 128
String(f, width, prec, units, t, w, out) ==
    LET cut == IF Len(units) > prec THEN SubSeq(units, 1, prec) ELSE units
        text == IF t = out.t THEN cut ELSE IF IsValid(w, cut) THEN EncodeAll(out.w, DecodeAll(w, cut)) ELSE <<>>
    IN Layout(f, width, <<>>, text, FALSE)
OneBit(v) == IF v THEN <<1>> ELSE <<0>>
Text(f, args, out) ==
    LET a == args[f.pos + 1]
        width == Width(f, args)
    IN CASE a.k \in {"int", "char"} -> IF f.type = "char" THEN Character(f, width, a.neg, a.bits, out.limit) ELSE Integer(f, width, a.neg, a.bits)
         [] a.k = "bool" -> IF f.type = "string" THEN Layout(f, width, <<>>, IF a.v THEN True4 ELSE False5, FALSE)
                            ELSE IF f.type = "char" THEN Character(f, width, FALSE, OneBit(a.v), out.limit)
                            ELSE Integer(f, width, FALSE, OneBit(a.v))
         [] a.k = "pointer" -> Integer([f EXCEPT !.type = "hex", !.alt = TRUE], width, FALSE, a.bits)
         [] a.k = "float" -> Float(f, width, a, Precision(f, args, 6))
         [] a.k = "string" -> String(f, width, Precision(f, args, 1000000), a.units, a.t, a.w, out)
         [] a.k = "styled" -> String(f, width, Precision(f, args, 1000000), a.units, out.t, out.w, out)
         [] a.k = "plain" -> a.units
         [] a.k = "option" -> IF f.option THEN True4 ELSE False5
\* what the documentation leaves open: infinity padded with zeros, the size of characters of several units,
\* and characters which are neither small nor too large for every type
OpenField(f, args, out) ==
    LET a == args[f.pos + 1] IN
    CASE a.k = "float" -> (a.class # "finite" /\ f.zero /\ f.widthIs # "none") \/ (a.lead < 0 /\ f.type = "hexfloat")
      [] a.k \in {"int", "char"} -> \/ (f.type = "char" /\ ~a.neg /\ Len(Trim(a.bits)) \in {31, 32} /\ out.limit > 16)
                                    \/ (a.k = "char" /\ a.neg)
      [] a.k = "string" -> ~Ascii(a.units) /\ (f.widthIs # "none" \/ f.precIs # "none")
      [] OTHER -> FALSE
Open(parts, args, out) == \E k \in 1..Len(parts) : parts[k].is = "field" /\ OpenField(parts[k].f, args, out)
Rendered(parts, args, out) ==
    FlattenSeq([k \in 1..Len(parts) |-> IF parts[k].is = "char" THEN <<parts[k].c>> ELSE Text(parts[k].f, args, out)])
=============================================================================
