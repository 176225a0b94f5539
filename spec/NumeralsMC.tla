----------------------------- MODULE NumeralsMC -----------------------------
(* Arithmetic on digits is arithmetic on numbers, where numbers are small;   *)
(* and the bounds of the integer types are what they should be.              *)
EXTENDS Numerals, TLC
CONSTANTS Bound
VARIABLE n
Init == n \in 0..Bound
Next == UNCHANGED n
Spec == Init /\ [][Next]_n
RECURSIVE Dec(_)
Dec(x) == IF x < 10 THEN <<x>> ELSE Append(Dec(x \div 10), x % 10)
RECURSIVE InBase(_, _)
InBase(x, b) == IF x < b THEN <<x>> ELSE Append(InBase(x \div b, b), x % b)
Arithmetic == /\ \A b \in {1, 2, 8, 10, 16} : \A d \in {0, 1, b - 1} : MulAdd(Dec(n), b, d) = Dec(n * b + d)
              /\ \A b \in {2, 8, 10, 16} : Value(b, <<0>> \o InBase(n, b)) = Dec(n)
              /\ \A m \in {0, 9, 10, 99, 100, n + 1, n} : Less(Dec(n), Dec(m)) <=> n < m
Text(ds) == [k \in 1..Len(ds) |-> 48 + ds[k]]
Reads == /\ ToInteger(Text(Dec(n)), 8, FALSE).ok <=> n <= 255
         /\ ToInteger(<<45>> \o Text(Dec(n)), 8, TRUE).ok <=> n <= 128
         /\ ToInteger(Text(Dec(n)), 8, TRUE).ok <=> n <= 127
         /\ n <= 32767 => ToInteger(<<48>> \o Text(Dec(n)), 16, TRUE).value = Dec(n)
         /\ ~ToInteger(<<43>> \o Text(Dec(n)), 32, TRUE).ok
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN <<1>> ELSE MulAdd(Pow2(k - 1), 2, 0)
\* the same value written in several ways, and the order of two values
R(t) == ToReal(t)
WithPoint(ds, k) == Text(SubSeq(ds, 1, k)) \o <<46>> \o Text(SubSeq(ds, k + 1, Len(ds)))
Writings == LET ds == Dec(n) IN
    {R(<<48>> \o Text(ds)), R(Text(ds) \o <<46>>), R(Text(ds) \o <<46, 48>>), R(Text(ds) \o <<101, 48>>), R(<<46>> \o Text(ds) \o <<69, 43>> \o Text(Dec(Len(ds))))}
    \cup {R(WithPoint(ds, k) \o <<101>> \o Text(Dec(Len(ds) - k))) : k \in 0..Len(ds)}
    \cup {R(Text(ds) \o Text(<<0, 0>>) \o <<101, 45, 50>>)}
Reals == /\ \A r \in Writings : r = R(Text(Dec(n)))
         /\ R(Text(Dec(n))).ok /\ (R(Text(Dec(n))).class = "zero") = (n = 0)
         /\ \A m \in {0, 1, 9, 10, 11, 99, 100, 101, n \div 10, n * 10, n + 1, n} :
                LET a == R(Text(Dec(n))) b == R(Text(Dec(m))) IN LessReal(a.x, a.ds, b.x, b.ds) <=> n < m
         /\ \A bad \in {<<46>>, <<45>>, <<101, 49>>, Text(Dec(n)) \o <<101>>, Text(Dec(n)) \o <<101, 43>>, <<43>> \o Text(Dec(n)), <<32>> \o Text(Dec(n)), Text(Dec(n)) \o <<32>>,
                       Text(Dec(n)) \o <<46, 46>>, Text(Dec(n)) \o <<0>>} : ~R(bad).ok
ASSUME \A bits \in {8, 16, 32, 64} : MulAdd(Largest(bits, FALSE), 1, 1) = Pow2(bits) /\ MulAdd(Largest(bits, TRUE), 1, 1) = Pow2(bits - 1)
=============================================================================
