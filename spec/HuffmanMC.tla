----------------------------- MODULE HuffmanMC -----------------------------
(* The encoder's algorithm: build a Huffman tree for the frequencies of the   *)
(* symbols, limit the code lengths, and use canonical codes.  Exhaustive over *)
(* small frequency vectors: the limited lengths always admit a canonical code *)
(* table the decoder accepts, unlimited lengths have minimal cost, and the    *)
(* codes are prefix free.                                                     *)
EXTENDS Huffman, TLC
CONSTANTS MaxSymbols, Freqs, Limits
VARIABLES freq, limit
vars == <<freq, limit>>

Init == freq = <<>> /\ limit \in Limits
Next == \E w \in Freqs : /\ Len(freq) < MaxSymbols /\ (freq # <<>> => w >= freq[Len(freq)])
                         /\ freq' = Append(freq, w) /\ UNCHANGED limit
Spec == Init /\ [][Next]_vars

\* Depth of every symbol in a Huffman tree; nodes are records [w, syms].
RECURSIVE Depths(_, _)
Depths(nodes, d) ==
    IF Cardinality(nodes) <= 1 THEN d
    ELSE LET a == CHOOSE x \in nodes : \A y \in nodes : x.w <= y.w
             b == CHOOSE x \in nodes \ {a} : \A y \in nodes \ {a} : x.w <= y.w
         IN Depths((nodes \ {a, b}) \cup {[w |-> a.w + b.w, syms |-> a.syms \cup b.syms]},
                   [s \in DOMAIN d |-> IF s \in a.syms \cup b.syms THEN d[s] + 1 ELSE d[s]])
Lengths == Depths({[w |-> freq[k], syms |-> {k}] : k \in 1..Len(freq)}, [k \in 1..Len(freq) |-> 0])
Sorted(d) == SortSeq(d, <)
Greatest(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Kraft(d, m) == FoldLeft(LAMBDA a, x : a + Pow2[m - x], 0, d)

\* Charles Bloom's heuristic on sorted lengths d with limit m, as the encoder applies it.
RECURSIVE Lengthen(_, _, _)
Lengthen(d, m, i) ==
    IF i = 0 \/ Kraft(d, m) <= Pow2[m] - 1 THEN d ELSE Lengthen([d EXCEPT ![i] = m], m, i - 1)
RECURSIVE Shorten(_, _, _)
Shorten(d, m, i) ==
    IF i > Len(d) THEN d
    ELSE IF Kraft(d, m) + Pow2[m - d[i]] <= Pow2[m] - 1 THEN Shorten([d EXCEPT ![i] = @ - 1], m, i)
    ELSE Shorten(d, m, i + 1)
Limited(d, m) == IF Greatest(d) <= m THEN d
                 ELSE Shorten(Lengthen([k \in 1..Len(d) |-> Lesser(d[k], m)], m, Len(d)), m, 1)
Final == LET d == Sorted(Lengths) IN IF Len(d) = 1 THEN <<1>> ELSE Limited(d, limit)
CountOf(d) == [L \in 1..Greatest(d) |-> Cardinality({k \in 1..Len(d) : d[k] = L})]
Representable == Len(freq) >= 1 /\ Len(freq) <= Pow2[limit]

TableIsAccepted == Representable => LET d == Final IN /\ d = Sorted(d) /\ Greatest(d) <= limit /\ d[1] >= 1
                                                      /\ CountsOk(CountOf(d))
PrefixFree == Representable =>
    LET d == Final  c == CountOf(d)  first == FirstCodes(c)  off == Offsets(c)
        Code(k) == first[d[k]] + (k - 1 - off[d[k]])
    IN \A i, j \in 1..Len(d) : i < j => Code(j) \div Pow2[d[j] - d[i]] # Code(i)
=============================================================================
