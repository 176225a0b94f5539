----------------------------- MODULE JsonValue ------------------------------
(* JSON values:                                                              *)
(*   <<"n">>                        null                                     *)
(*   <<"b", TRUE>>                  a boolean                                *)
(*   <<"i", negative, digits>>      a signed integer of 64 bits              *)
(*   <<"u", FALSE, digits>>         an unsigned integer of 64 bits           *)
(*   <<"f", negative, digits, e>>   the number  digits * 10^e, where digits  *)
(*                                  neither begins nor ends with 0           *)
(*   <<"s", bytes>>                 a string, as UTF-8                       *)
(*   <<"a", <<value, ...>>>>        an array                                 *)
(*   <<"o", <<<<key, value>>, ...>>>>  an object, sorted by key              *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

Null == <<"n">>
IsA(v, tag) == v[1] = tag
IsContainer(v) == v[1] \in {"a", "o"}
IsNumeric(v) == v[1] \in {"i", "u", "f"}

\* byte-wise order
LexLess(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        diff == {k \in 1..n : a[k] # b[k]}
    IN IF diff = {} THEN Len(a) < Len(b)
       ELSE LET k == CHOOSE x \in diff : \A y \in diff : x <= y IN a[k] < b[k]

\* ---- objects, as sequences of members sorted by key
HasKey(ms, key) == \E k \in 1..Len(ms) : ms[k][1] = key
KeyIndex(ms, key) == CHOOSE k \in 1..Len(ms) : ms[k][1] = key
Before(ms, key) == Cardinality({k \in 1..Len(ms) : LexLess(ms[k][1], key)})
Assign(ms, key, v) ==
    IF HasKey(ms, key) THEN [ms EXCEPT ![KeyIndex(ms, key)] = <<key, v>>]
    ELSE LET n == Before(ms, key) IN SubSeq(ms, 1, n) \o <<<<key, v>>>> \o SubSeq(ms, n + 1, Len(ms))
Insert(ms, key, v) == IF HasKey(ms, key) THEN ms ELSE Assign(ms, key, v)
Without(ms, key) == SelectSeq(ms, LAMBDA m : m[1] # key)
=============================================================================
