------------------------------ MODULE Huffman ------------------------------
(* The Huffman container: a bit stream holding version, chunk size in KiB,   *)
(* and longest allowed code, followed by chunks.  A chunk is a canonical     *)
(* code table (how many codes of each length, then the symbols in code       *)
(* order) and the codes of its symbols.  `f` is the file as bytes, bit       *)
(* positions are counted from 0 after the bit stream's one-byte header.      *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

CONSTANT Magic
Version == 1
MaxLength == 15           \* codes are kept in 16 bits

Byte(f, k) == IF k + 2 <= Len(f) THEN f[k + 2] ELSE 0
Pow2 == [k \in 0..24 |-> 2 ^ k]
\* n <= 16 bits at position p, as a number; positions beyond the end read as zeros
Bits(f, p, n) ==
    LET b == p \div 8
        w == Byte(f, b) * 65536 + Byte(f, b + 1) * 256 + Byte(f, b + 2)
    IN (w \div Pow2[24 - (p % 8) - n]) % Pow2[n]
NBits(f) == IF Len(f) <= 1 THEN 0 ELSE 8 * (Len(f) - 1) - (f[1] % 8)

FileHeaderOk(f) ==
    /\ Len(f) >= 1 /\ f[1] \div 8 = Magic
    /\ NBits(f) >= 32
    /\ Bits(f, 0, 8) = Version
    /\ Bits(f, 8, 16) > 0
    /\ Bits(f, 24, 8) \in 1..MaxLength
ChunkKb(f) == Bits(f, 8, 16)
Limit(f) == Bits(f, 24, 8)

-----------------------------------------------------------------------------
(* Code tables.  count[L] codes of length L; the codes of one length are      *)
(* consecutive and the first of length L follows the last of length L - 1.    *)
FirstCodes(count) ==
    LET step(acc, L) == Append(acc, IF L = 1 THEN 0 ELSE (acc[L - 1] + count[L - 1]) * 2)
    IN FoldLeft(step, <<>>, [L \in 1..Len(count) |-> L])
Offsets(count) ==
    LET step(acc, L) == Append(acc, IF L = 1 THEN 0 ELSE acc[L - 1] + count[L - 1])
    IN FoldLeft(step, <<>>, [L \in 1..Len(count) |-> L])
Total(count) == FoldLeft(LAMBDA a, b : a + b, 0, count)
\* Every code must fit in its length (the Kraft inequality for canonical codes).
CountsOk(count) ==
    /\ Total(count) <= 256
    /\ LET first == FirstCodes(count)
       IN \A L \in 1..Len(count) : count[L] > 0 => first[L] + count[L] <= Pow2[L]

\* The table at position p: [ok, next, count, symbols, first, offset].
BadTable == [ok |-> FALSE, next |-> 0, count |-> <<>>, symAt |-> 0, first |-> <<>>, offset |-> <<>>]
Table(f, p) ==
    LET n == NBits(f)
        size == Bits(f, p, 8)
    IN IF p + 8 > n \/ size = 0 \/ size > Limit(f) + 1 \/ p + 8 + 16 * size > n THEN BadTable
       ELSE LET zero == Bits(f, p + 8, 16)
                count == [L \in 1..(size - 1) |-> Bits(f, p + 8 + 16 * L, 16)]
                sp == p + 8 + 16 * size
            IN IF zero # 0 \/ ~CountsOk(count) \/ sp + 8 * Total(count) > n THEN BadTable
               ELSE [ok |-> TRUE, next |-> sp + 8 * Total(count), count |-> count, symAt |-> sp,
                     first |-> FirstCodes(count), offset |-> Offsets(count)]

\* Decode one symbol at p: the only code which is a prefix of what is left; <<length, symbol>>.
NoCode == <<0, 0>>
RECURSIVE MatchCode(_, _, _, _)
MatchCode(f, t, p, L) ==
    IF L > Len(t.count) \/ p + L > NBits(f) THEN NoCode
    ELSE LET v == Bits(f, p, L) - t.first[L]
         IN IF v >= 0 /\ v < t.count[L] THEN <<L, Bits(f, t.symAt + 8 * (t.offset[L] + v), 8)>>
            ELSE MatchCode(f, t, p, L + 1)

(* Decode a chunk of at most `cap` symbols at p.  `out` is the claimed output, *)
(* of which n symbols have been matched already; with known = FALSE there is   *)
(* no claim and only well-formedness is established.                           *)
DecodeChunk(f, t, cap, known, out, n) ==
    LET step(acc, k) ==
            IF acc.st # "run" THEN acc
            ELSE IF acc.p >= NBits(f) THEN [acc EXCEPT !.st = "end"]
            ELSE LET m == MatchCode(f, t, acc.p, 1)
                 IN IF m[1] = 0 THEN [acc EXCEPT !.st = "bad"]
                    ELSE IF known /\ (acc.n + 1 > Len(out) \/ out[acc.n + 1] # m[2])
                    THEN [acc EXCEPT !.st = "differs"]
                    ELSE [acc EXCEPT !.p = acc.p + m[1], !.n = acc.n + 1]
        left == NBits(f) - t.next
        r == FoldLeft(step, [p |-> t.next, n |-> n, st |-> "run"],
                      [k \in 1..(IF cap < left THEN cap ELSE left) |-> k])
    IN r
RECURSIVE DecodeChunks(_, _, _, _, _)
DecodeChunks(f, p, known, out, n) ==
    IF p >= NBits(f) THEN [st |-> "good", n |-> n]
    ELSE LET t == Table(f, p)
         IN IF ~t.ok THEN [st |-> "bad", n |-> n]
            ELSE LET r == DecodeChunk(f, t, ChunkKb(f) * 1024, known, out, n)
                 IN IF r.st \in {"bad", "differs"} THEN [st |-> r.st, n |-> r.n]
                    \* fewer symbols than a chunk holds, and yet not at the end
                    ELSE IF r.p < NBits(f) /\ r.n - n < ChunkKb(f) * 1024 THEN [st |-> "bad", n |-> r.n]
                    ELSE DecodeChunks(f, r.p, known, out, r.n)

WellFormed(f) == FileHeaderOk(f) /\ DecodeChunks(f, 32, FALSE, <<>>, 0).st = "good"
DecodesTo(f, out) == /\ FileHeaderOk(f)
                     /\ LET r == DecodeChunks(f, 32, TRUE, out, 0) IN r.st = "good" /\ r.n = Len(out)

\* What the encoder must refuse: limits under which some chunk has no prefix code.
Alphabet(s, a, b) == {s[k] : k \in a..b}
Lesser(a, b) == IF a < b THEN a ELSE b
Encodable(in, kb, limit) ==
    /\ kb > 0 /\ limit \in 1..MaxLength
    /\ \A c \in 0..((Len(in) - 1) \div (kb * 1024)) :
         LET a == c * kb * 1024 + 1 IN
         Cardinality(Alphabet(in, a, Lesser(Len(in), a + kb * 1024 - 1))) <= Pow2[limit]
-----------------------------------------------------------------------------
(* Inputs too long to be written out: runs of equal symbols <<symbol, count>>. *)
RunsEnd(runs) == FoldLeft(LAMBDA acc, r : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + r[2]), <<>>, runs)
RunsLen(runs) == IF runs = <<>> THEN 0 ELSE RunsEnd(runs)[Len(runs)]
RunsEncodable(runs, kb, limit) ==
    /\ kb > 0 /\ limit \in 1..MaxLength
    /\ LET ends == RunsEnd(runs)
           size == kb * 1024
       IN \A c \in 0..((RunsLen(runs) - 1) \div size) :
            Cardinality({runs[k][1] : k \in {i \in 1..Len(runs) :
                /\ runs[i][2] > 0
                /\ ends[i] > c * size /\ ends[i] - runs[i][2] < (c + 1) * size}}) <= Pow2[limit]
\* the length of a symbol's code in table t of file f, 0 without one
CodeLength(f, t, sym) ==
    LET at == {k \in 0..(Total(t.count) - 1) : Bits(f, t.symAt + 8 * k, 8) = sym}
    IN IF Cardinality(at) # 1 THEN 0
       ELSE LET k == CHOOSE k \in at : TRUE
            IN CHOOSE L \in 1..Len(t.count) : t.offset[L] <= k /\ k < t.offset[L] + t.count[L]
\* `head` begins a file of one chunk and `size` bytes: it holds a code for every symbol, and
\* as many bits as these codes take.
OneChunk(head, size, runs) ==
    LET t == Table(head, 32) IN
    /\ FileHeaderOk(head) /\ t.ok
    /\ \A k \in 1..Len(runs) : runs[k][2] > 0 => CodeLength(head, t, runs[k][1]) > 0
    /\ 8 * (size - 1) - (head[1] % 8) =
         t.next + FoldLeft(LAMBDA a, r : a + (IF r[2] > 0 THEN r[2] * CodeLength(head, t, r[1]) ELSE 0), 0, runs)
=============================================================================
