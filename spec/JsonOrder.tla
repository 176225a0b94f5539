----------------------------- MODULE JsonOrder ------------------------------
(* The order of JSON values.  Numbers are compared by their values, whatever *)
(* their types are; other values by their contents if they are of one type,  *)
(* and by their types otherwise.                                             *)
EXTENDS JsonValue

Rank(v) == CASE IsA(v, "n") -> 0 [] IsA(v, "s") -> 1 [] IsA(v, "o") -> 2 [] IsA(v, "a") -> 3 [] IsA(v, "b") -> 4 [] OTHER -> 5

\* ---- numbers: digits * 10^e
Lead(d) == {k \in 1..Len(d) : d[k] # 0}
IsZero(v) == Lead(v[3]) = {}
Sig(v) == LET k == CHOOSE x \in Lead(v[3]) : \A y \in Lead(v[3]) : x <= y IN SubSeq(v[3], k, Len(v[3]))
Exp(v) == IF IsA(v, "f") THEN v[4] ELSE 0
DigitAt(d, k) == IF k <= Len(d) THEN d[k] ELSE 0
MagLess(v, w) == \* neither is zero
    LET a == Sig(v) b == Sig(w)
        ta == Len(a) + Exp(v) tb == Len(b) + Exp(w)
        n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
    IN IF ta # tb THEN ta < tb
       ELSE \E k \in 1..n : DigitAt(a, k) < DigitAt(b, k) /\ \A i \in 1..(k - 1) : DigitAt(a, i) = DigitAt(b, i)
Neg(v) == v[2] /\ ~IsZero(v)
NumLess(v, w) ==
    IF Neg(v) # Neg(w) THEN Neg(v)
    ELSE IF IsZero(v) THEN ~IsZero(w)
    ELSE IF IsZero(w) THEN FALSE
    ELSE IF Neg(v) THEN MagLess(w, v) ELSE MagLess(v, w)

\* ---- all values
RECURSIVE Lt(_, _)
RECURSIVE SeqLt(_, _)
SeqLt(s, t) ==
    IF t = <<>> THEN FALSE
    ELSE IF s = <<>> THEN TRUE
    ELSE IF Lt(s[1], t[1]) THEN TRUE
    ELSE IF Lt(t[1], s[1]) THEN FALSE
    ELSE SeqLt(Tail(s), Tail(t))
RECURSIVE MembersLt(_, _)
MembersLt(s, t) ==
    IF t = <<>> THEN FALSE
    ELSE IF s = <<>> THEN TRUE
    ELSE IF s[1][1] # t[1][1] THEN LexLess(s[1][1], t[1][1])
    ELSE IF Lt(s[1][2], t[1][2]) THEN TRUE
    ELSE IF Lt(t[1][2], s[1][2]) THEN FALSE
    ELSE MembersLt(Tail(s), Tail(t))
Lt(v, w) ==
    IF Rank(v) # Rank(w) THEN Rank(v) < Rank(w)
    ELSE CASE Rank(v) = 0 -> FALSE
           [] Rank(v) = 1 -> LexLess(v[2], w[2])
           [] Rank(v) = 2 -> MembersLt(v[2], w[2])
           [] Rank(v) = 3 -> SeqLt(v[2], w[2])
           [] Rank(v) = 4 -> ~v[2] /\ w[2]
           [] Rank(v) = 5 -> NumLess(v, w)
RECURSIVE Eq(_, _)
Eq(v, w) ==
    IF IsNumeric(v) /\ IsNumeric(w) THEN ~NumLess(v, w) /\ ~NumLess(w, v)
    ELSE IF v[1] # w[1] THEN FALSE
    ELSE CASE IsA(v, "a") -> Len(v[2]) = Len(w[2]) /\ \A k \in 1..Len(v[2]) : Eq(v[2][k], w[2][k])
           [] IsA(v, "o") -> Len(v[2]) = Len(w[2]) /\ \A k \in 1..Len(v[2]) : v[2][k][1] = w[2][k][1] /\ Eq(v[2][k][2], w[2][k][2])
           [] OTHER -> v = w

\* ---- what programs do with an order: sort, and count what is different
Ordered(s) == \A k \in 1..(Len(s) - 1) : ~Lt(s[k + 1], s[k])
Rearranged(s, t) ==
    /\ Len(s) = Len(t)
    /\ \A k \in 1..Len(s) : Cardinality({i \in 1..Len(s) : s[i] = s[k]}) = Cardinality({i \in 1..Len(t) : t[i] = s[k]})
Distinct(s) == Cardinality({k \in 1..Len(s) : \A i \in 1..(k - 1) : ~Eq(s[i], s[k])})
=============================================================================
