---------------------------- MODULE JsonConvert -----------------------------
(* JSON values as values of C++ types, and made from them.  A type is        *)
(*   <<"null">> <<"bool">> <<"int", bits, signed>> <<"real", digits>>        *)
(*   <<"text">> <<"json">> <<"list", t>> <<"fixed", t, n>> <<"set", t>>      *)
(*   <<"bag", t>> <<"map", t>> (all of them with keys of any encoding)       *)
(* and a value of it is written like the JSON value it corresponds to.       *)
EXTENDS JsonText

\* outcomes besides values
Refusal == <<"refused">>
Open == <<"open">> \* not representable in the type: up to the machine

\* ---- numbers
Leading(d) == {k \in 1..Len(d) : d[k] # 0}
Significant(d) == IF Leading(d) = {} THEN 0 ELSE (CHOOSE x \in Leading(d) : \A y \in Leading(d) : y <= x) - (CHOOSE x \in Leading(d) : \A y \in Leading(d) : x <= y) + 1
Whole(v) == \* the digits of the integral part
    IF ~IsA(v, "f") THEN v[3]
    ELSE IF v[4] >= 0 THEN (IF v[3] = <<>> THEN <<0>> ELSE v[3] \o Zeros(v[4]))
    ELSE IF Len(v[3]) + v[4] <= 0 THEN <<0>> ELSE SubSeq(v[3], 1, Len(v[3]) + v[4])
AsInt(v, bits, signed) ==
    IF IsA(v, "f") /\ v[4] > 30 THEN Open
    ELSE LET m == Whole(v) neg == v[2] /\ m # <<0>> IN
         IF Fits(neg, m, bits, signed) THEN <<IF signed THEN "i" ELSE "u", neg, m>> ELSE Open
AsReal(v, digits) ==
    LET r == IF IsA(v, "f") THEN v ELSE Decimal(v[2], v[3], 0) IN
    IF Significant(v[3]) > digits \/ r[4] + Len(r[3]) > 30 \/ r[4] < -30 THEN Open ELSE r

\* ---- text as a number: digits [. digits] [e [sign] digits], with at least one digit before the exponent
Span(s, p) == LET stop == {k \in p..Len(s) : s[k] < 48 \/ s[k] > 57} IN IF stop = {} THEN Len(s) + 1 ELSE CHOOSE k \in stop : \A i \in stop : k <= i
Nums(s, a, b) == [k \in 1..(b - a) |-> s[a + k - 1] - 48]
RECURSIVE Small(_)
Small(d) == IF d = <<>> THEN 0 ELSE IF Len(d) > 6 THEN 999999 ELSE 10 * Small(SubSeq(d, 1, Len(d) - 1)) + d[Len(d)]
Special(s) == Len(s) >= 3 /\ \E k \in 1..2 : k <= Len(s) /\ s[k] \in {73, 78, 105, 110} \* infinite, or not a number
TextReal(s) == \* <<"f", ...>>, or a refusal
    LET neg == s # <<>> /\ s[1] = 45
        a == IF neg THEN 2 ELSE 1
        b == Span(s, a)
        point == b <= Len(s) /\ s[b] = 46
        c == IF point THEN Span(s, b + 1) ELSE b
        front == Nums(s, a, b)
        back == IF point THEN Nums(s, b + 1, c) ELSE <<>>
        exp == c <= Len(s) /\ s[c] \in {69, 101}
        esign == exp /\ c < Len(s) /\ s[c + 1] \in {43, 45}
        ed == c + 1 + (IF esign THEN 1 ELSE 0)
        e == IF exp THEN Nums(s, ed, Span(s, ed)) ELSE <<>>
        end == IF exp THEN Span(s, ed) ELSE c
    IN IF Special(s) THEN Open
       ELSE IF front \o back = <<>> \/ end # Len(s) + 1 \/ (exp /\ e = <<>>) THEN Refusal
       ELSE IF Len(e) > 4 THEN Open
       ELSE Decimal(neg, front \o back, (IF esign /\ s[c + 1] = 45 THEN -Small(e) ELSE Small(e)) - Len(back))

\* ---- all types
Truth(v) ==
    CASE IsA(v, "n") -> FALSE
      [] IsA(v, "b") -> v[2]
      [] v[1] \in {"i", "u", "f"} -> Leading(v[3]) # {}
      [] OTHER -> v[2] # <<>>
Bad1(results) == \E k \in 1..Len(results) : results[k] = Refusal
Open1(results) == \E k \in 1..Len(results) : results[k] = Open
Of(results, v) == IF Open1(results) THEN Open ELSE IF Bad1(results) THEN Refusal ELSE v
RECURSIVE As(_, _)
As(t, v) ==
    CASE IsA(t, "json") -> v
      [] IsA(t, "null") -> IF IsA(v, "n") THEN v ELSE Refusal
      [] IsA(t, "bool") -> <<"b", Truth(v)>>
      [] IsA(t, "int") ->
            IF IsNumeric(v) THEN AsInt(v, t[2], t[3])
            ELSE IF ~IsA(v, "s") THEN Refusal
            ELSE LET n == ToInteger(v[2], t[2], t[3]) IN IF n.ok THEN <<IF t[3] THEN "i" ELSE "u", n.neg, n.value>> ELSE Refusal
      [] IsA(t, "real") ->
            IF IsNumeric(v) THEN AsReal(v, t[2])
            ELSE IF ~IsA(v, "s") THEN Refusal
            ELSE LET r == TextReal(v[2]) IN IF r \in {Open, Refusal} THEN r ELSE AsReal(r, t[2])
      [] IsA(t, "text") -> \* which of the texts of a number: see Fit
            IF IsA(v, "s") THEN v ELSE IF IsNumeric(v) THEN <<"number", v>> ELSE Refusal
      [] t[1] \in {"list", "set", "bag"} ->
            IF ~IsA(v, "a") THEN Refusal
            ELSE LET rs == [k \in 1..Len(v[2]) |-> As(t[2], v[2][k])] IN Of(rs, <<"a", rs>>)
      [] IsA(t, "fixed") -> \* as many as there are; <<"none">> for the others
            IF ~IsA(v, "a") THEN Refusal
            ELSE LET n == IF Len(v[2]) < t[3] THEN Len(v[2]) ELSE t[3]
                     rs == [k \in 1..t[3] |-> IF k <= n THEN As(t[2], v[2][k]) ELSE <<"none">>]
                 IN Of(rs, <<"a", rs>>)
      [] IsA(t, "map") ->
            IF ~IsA(v, "o") THEN Refusal
            ELSE LET rs == [k \in 1..Len(v[2]) |-> As(t[2], v[2][k][2])] IN Of(rs, <<"o", [k \in 1..Len(v[2]) |-> <<v[2][k][1], rs[k]>>]>>)

\* x is what w expects, as a value of type t
Empty(x) == x \in {<<"i", FALSE, <<0>>>>, <<"u", FALSE, <<0>>>>, <<"f", FALSE, <<>>, 0>>, <<"b", FALSE>>, <<"s", <<>>>>, <<"n">>}
RECURSIVE Fit(_, _, _)
Fit(t, w, x) ==
    CASE IsA(w, "open") -> TRUE
      [] IsA(w, "none") -> Empty(x)
      [] IsA(w, "number") -> x[1] = "s" /\ x[2] \in Texts(w[2])
      [] t[1] \in {"list", "fixed"} -> x[1] = "a" /\ Len(x[2]) = Len(w[2]) /\ \A k \in 1..Len(x[2]) : Fit(t[2], w[2][k], x[2][k])
      [] IsA(t, "set") -> /\ x[1] = "a"
                          /\ \A k \in 1..Len(x[2]) : /\ \A i \in 1..(k - 1) : x[2][i] # x[2][k]
                                                     /\ \E i \in 1..Len(w[2]) : Fit(t[2], w[2][i], x[2][k])
                          /\ \A i \in 1..Len(w[2]) : \E k \in 1..Len(x[2]) : Fit(t[2], w[2][i], x[2][k])
      [] IsA(t, "bag") -> /\ x[1] = "a" /\ Len(x[2]) = Len(w[2])
                          /\ \A k \in 1..Len(x[2]) : Cardinality({i \in 1..Len(w[2]) : Fit(t[2], w[2][i], x[2][k])})
                                                     = Cardinality({i \in 1..Len(x[2]) : x[2][i] = x[2][k]})
      [] IsA(t, "map") -> x[1] = "o" /\ Len(x[2]) = Len(w[2]) /\ \A k \in 1..Len(x[2]) : x[2][k][1] = w[2][k][1] /\ Fit(t[2], w[2][k][2], x[2][k][2])
      [] OTHER -> x = w

\* ---- values made from C++ values; the first one of equal keys is kept
RECURSIVE From(_), Members(_, _)
Members(ms, acc) == IF ms = <<>> THEN acc ELSE Members(Tail(ms), Insert(acc, Unquote(ms[1][1]), From(ms[1][2])))
From(x) ==
    CASE IsA(x, "s") -> <<"s", Unquote(x[2])>>
      [] IsA(x, "a") -> <<"a", [k \in 1..Len(x[2]) |-> From(x[2][k])]>>
      [] IsA(x, "o") -> <<"o", Members(x[2], <<>>)>>
      [] OTHER -> x
RECURSIVE Sound(_)
Sound(x) == \* all the strings are acceptable
    CASE IsA(x, "s") -> Unquote(x[2]) # <<None>>
      [] IsA(x, "a") -> \A k \in 1..Len(x[2]) : Sound(x[2][k])
      [] IsA(x, "o") -> \A k \in 1..Len(x[2]) : Unquote(x[2][k][1]) # <<None>> /\ Sound(x[2][k][2])
      [] OTHER -> TRUE
=============================================================================
