------------------------------ MODULE FormatMC ------------------------------
(* Every format string over a small alphabet, against the grammar written as *)
(* the set of its fields; and numbers, rounded by digits, against arithmetic. *)
EXTENDS FormatText, TLC
CONSTANTS MaxLen, Bound
VARIABLES inner, number
vars == <<inner, number>>

\* { } : < 0 2 . + # d s
Alphabet == {123, 125, 58, 60, 48, 50, 46, 43, 35, 100, 115}
Kinds == <<"int", "float", "string">>

\* ---- the grammar, constructively: all fields up to the length, as [text, autos, manual]
Opt(S) == {<<>>} \cup S
Size == MaxLen + 3
Short(S, n) == {x \in S : Len(x) <= n}
FillAlign == {<<>>, <<60>>} \cup {<<c, 60>> : c \in Alphabet \ {LBrace, RBrace}}
SignPart == {<<>>, <<43>>}
AltPart == {<<>>, <<35>>}
\* zero and width together: numbers over the digits 0 and 2, of up to three digits
Nums == {<<48>>, <<50>>, <<48, 48>>, <<48, 50>>, <<50, 48>>, <<50, 50>>, <<48, 48, 48>>, <<48, 48, 50>>, <<48, 50, 48>>, <<48, 50, 50>>,
         <<50, 48, 48>>, <<50, 48, 50>>, <<50, 50, 48>>, <<50, 50, 50>>, <<48, 48, 48, 48>>, <<48, 48, 48, 50>>, <<48, 48, 50, 48>>, <<48, 48, 50, 50>>,
         <<48, 50, 48, 48>>, <<48, 50, 48, 50>>, <<48, 50, 50, 48>>, <<48, 50, 50, 50>>, <<50, 48, 48, 48>>, <<50, 48, 48, 50>>, <<50, 48, 50, 48>>, <<50, 48, 50, 50>>,
         <<50, 50, 48, 48>>, <<50, 50, 48, 50>>, <<50, 50, 50, 48>>, <<50, 50, 50, 50>>}
NumValue(ds) == ToNat([k \in 1..Len(ds) |-> ds[k] - 48])
\* the position which the field names, -1 for the next one
Nested == {[t |-> <<LBrace, RBrace>>, p |-> -1]} \cup {[t |-> <<LBrace>> \o n \o <<RBrace>>, p |-> NumValue(n)] : n \in Short(Nums, MaxLen)}
NoNest == [t |-> <<>>, p |-> -2]
WidthPart == {[z |-> z, w |-> w, x |-> x] : z \in {<<>>, <<48>>}, w \in {<<>>} \cup {n \in Nums : NumValue(n) > 0}, x \in {NoNest} \cup Nested}
Widths == {r \in WidthPart : (r.w = <<>> \/ r.x = NoNest) /\ (r.z = <<>> /\ r.w # <<>> => r.w[1] # 48) /\ Len(r.z) + Len(r.w) + Len(r.x.t) <= MaxLen}
Precs == {[n |-> n, x |-> x] : n \in {<<>>} \cup Nums, x \in {NoNest} \cup Nested}
PrecParts == {r \in Precs : ((r.n = <<>>) # (r.x = NoNest)) /\ Len(r.n) + Len(r.x.t) < MaxLen}
PrecText(r) == <<46>> \o r.n \o r.x.t
NoPrec == [n |-> <<>>, x |-> NoNest]
Types == {<<>>, <<100>>, <<115>>}
\* whether the field at the position means something, when the next positions are these
Pos(p, next) == IF p = -1 THEN next ELSE p
Meaning(kind, fa, sg, alt, w, pr, ty) ==
    LET num == kind \in {"int", "float"}
        zero == w.z # <<>> /\ fa = <<>>
    IN /\ ty # <<>> => ty = (CASE kind = "int" -> <<100>> [] kind = "float" -> <<0>> [] kind = "string" -> <<115>>)
       /\ (sg # <<>> \/ zero) => num
       /\ alt # <<>> => kind = "float"
       /\ pr # NoPrec => kind # "int"
\* [text, first: position of the value, others: of width and precision]
Fields == LET first == {[t |-> <<>>, p |-> -1]} \cup {[t |-> n, p |-> NumValue(n)] : n \in Short(Nums, MaxLen)}
          IN {[text |-> <<LBrace>> \o f.t \o o \o <<RBrace>>, f |-> f.p, fa |-> <<>>, sg |-> <<>>, alt |-> <<>>, w |-> [z |-> <<>>, w |-> <<>>, x |-> NoNest], pr |-> NoPrec, ty |-> <<>>]
                : f \in first, o \in {<<>>, <<58>>}}
             \cup UNION {UNION {LET head == <<LBrace>> \o f.t \o <<58>> \o fa \o sg \o alt
                                    room == Size - Len(head) - 1
                                IN {[text |-> head \o r[1].z \o r[1].w \o r[1].x.t \o (IF r[2] = NoPrec THEN <<>> ELSE PrecText(r[2])) \o r[3] \o <<RBrace>>,
                                     f |-> f.p, fa |-> fa, sg |-> sg, alt |-> alt, w |-> r[1], pr |-> r[2], ty |-> r[3]]
                                     : r \in {q \in Widths \X (PrecParts \cup {NoPrec}) \X Types :
                                                 Len(q[1].z) + Len(q[1].w) + Len(q[1].x.t) + (IF q[2] = NoPrec THEN 0 ELSE Len(PrecText(q[2]))) + Len(q[3]) <= room}}
                                : sg \in SignPart, alt \in AltPart} : f \in first, fa \in FillAlign}
AllFields == {x \in Fields : Len(x.text) <= Size}
\* how many arguments a field takes in order, and whether it fits after others
Autos(x) == Cardinality({k \in 1..3 : <<x.f, x.w.x.p, x.pr.x.p>>[k] = -1})
Manuals(x) == Cardinality({k \in 1..3 : <<x.f, x.w.x.p, x.pr.x.p>>[k] >= 0})
Fitting(x, next, mode) ==
    LET f == Pos(x.f, next)
        n1 == IF x.f = -1 THEN next + 1 ELSE next
        w == Pos(x.w.x.p, n1)
        n2 == IF x.w.x.p = -1 THEN n1 + 1 ELSE n1
        r == Pos(x.pr.x.p, n2)
    IN /\ Autos(x) = 0 \/ (Manuals(x) = 0 /\ mode # "manual")
       /\ Manuals(x) = 0 \/ mode # "auto"
       /\ f < Len(Kinds)
       /\ Meaning(Kinds[f + 1], x.fa, x.sg, x.alt, x.w, x.pr, x.ty)
       /\ x.w.x # NoNest => w < Len(Kinds) /\ Kinds[w + 1] = "int"
       /\ x.pr.x # NoNest => r < Len(Kinds) /\ Kinds[r + 1] = "int"
FieldTable == TLCGet(1)
RECURSIVE Good4(_, _, _, _)
Good4(s, p, next, mode) ==
    IF p > Len(s) THEN TRUE
    ELSE IF s[p] \notin {LBrace, RBrace} THEN Good4(s, p + 1, next, mode)
    ELSE IF At(s, p + 1) = s[p] THEN Good4(s, p + 2, next, mode)
    ELSE /\ s[p] = LBrace
         /\ \E e \in (p + 1)..Len(s) :
              /\ s[e] = RBrace
              \* (a closing brace in front of an alignment would be a fill character)
              /\ ~(s[e - 1] = 58 /\ At(s, e + 1) = 60 /\ \A k \in (p + 1)..(e - 2) : s[k] \in {48, 50})
              /\ \E x \in FieldTable[e - p + 1] :
                    /\ x.text = SubSeq(s, p, e)
                    /\ Fitting(x, next, mode)
                    /\ Good4(s, e + 1, next + Autos(x), IF Autos(x) > 0 THEN "auto" ELSE IF Manuals(x) > 0 THEN "manual" ELSE mode)

ASSUME LET all == AllFields IN TLCSet(1, [n \in 1..Size |-> {x \in all : Len(x.text) = n}])

Init == inner = <<>> /\ number = 0
Next == \/ number = 0 /\ Len(inner) < MaxLen /\ (\E c \in Alphabet : inner' = Append(inner, c)) /\ UNCHANGED number
        \/ inner = <<>> /\ number < Bound /\ number' = number + 1 /\ UNCHANGED inner
Spec == Init /\ [][Next]_vars

Grammar == /\ Accepted(inner, Kinds) = Good4(inner, 1, 0, "open")
           /\ LET s == <<LBrace>> \o inner \o <<RBrace>> IN Accepted(s, Kinds) = Good4(s, 1, 0, "open")
           /\ LET s == <<LBrace, 58>> \o inner \o <<RBrace>> IN Accepted(s, Kinds) = Good4(s, 1, 0, "open")
\* what is escaped comes out as it was
Doubled == LET esc == FlattenSeq([k \in 1..Len(inner) |-> IF inner[k] \in {LBrace, RBrace} THEN <<inner[k], inner[k]>> ELSE <<inner[k]>>])
               p == Parsed(esc, <<>>)
           IN p.ok /\ [k \in 1..Len(p.parts) |-> p.parts[k].c] = inner

\* ---- numbers: number / 2^h as exact decimal digits, rounded to places, is nearest with ties to even
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
\* number / 10^places as digits and point position
Decimal(n, places) == LET d == DigitsOf(n) IN IF n = 0 THEN [d |-> <<>>, exp |-> 0] ELSE [d |-> d, exp |-> Len(d) - places]
Nearest(n, unit) == LET q == n \div unit r == n % unit IN IF 2 * r > unit \/ (2 * r = unit /\ q % 2 = 1) THEN q + 1 ELSE q
Rounding ==
    \A places \in 0..5 : \A prec \in 0..6 :
        LET v == Decimal(number, places)
            f == FixedDigits(v.d, v.exp, prec)
            want == IF prec >= places THEN number * Power(10, prec - places) ELSE Nearest(number, Power(10, places - prec))
        IN /\ Len(f.frac) = prec
           /\ Strip(f.int \o f.frac) = DigitsOf(want)
Scientific ==
    \A prec \in 0..5 :
        LET v == Decimal(number, 3)
            q == SciParts(v.d, v.exp, prec)
            n == Len(DigitsOf(number))
            want == IF prec + 1 >= n THEN number * Power(10, prec + 1 - n) ELSE Nearest(number, Power(10, n - prec - 1))
            carried == Len(DigitsOf(want)) > prec + 1
        IN IF number = 0 THEN q.x = 0 /\ \A k \in 1..Len(q.d) : q.d[k] = 0
           ELSE /\ Len(q.d) = prec + 1 /\ q.d[1] # 0
                /\ q.d = DigitsOf(IF carried THEN want \div 10 ELSE want)
                /\ q.x = n - 1 - 3 + (IF carried THEN 1 ELSE 0)
General ==
    \A pr \in {0, 1, 3, 6} :
        LET v == Decimal(number, 4)
            g == GeneralDigits(v.d, v.exp, pr, TRUE)
            p1 == IF pr = 0 THEN 1 ELSE pr
            digits == Strip(g.int \o g.frac)
        IN /\ number # 0 => Len(digits) = p1                      \* as many significant digits as asked for
           /\ (g.exp = <<>>) = LET x == SciParts(v.d, v.exp, p1 - 1).x IN x >= -4 /\ x < p1
Widthed ==
    \A w \in 0..9, al \in {0, 60, 62, 94}, z \in BOOLEAN :
        LET f == [Plain(0, "int") EXCEPT !.align = al, !.zero = z /\ al = 0, !.fill = 42]
            body == Chars(DigitsOf(number))
            t == Layout(f, w, <<43>>, body, TRUE)
            n == Len(body) + 1
        IN /\ Len(t) = (IF w > n THEN w ELSE n)
           /\ \E k \in 0..(Len(t) - n) :
                 IF f.zero THEN t = <<43>> \o Rep(Zero, Len(t) - n) \o body
                 ELSE /\ SubSeq(t, k + 1, k + n) = <<43>> \o body
                      /\ \A j \in (1..k) \cup ((k + n + 1)..Len(t)) : t[j] = 42
                      /\ al = 60 => k = 0
                      /\ al \in {0, 62} => k = Len(t) - n
                      /\ al = 94 => (Len(t) - n - k) - k \in {0, 1}
=============================================================================
