----------------------------- MODULE BitStream -----------------------------
(* A bit stream: a writer appends bits to a growing sequence; finishing it  *)
(* stores a header byte (magic in the high five bits, number of zero-filled *)
(* bits in the low three) followed by the bits packed big-endian.  A reader *)
(* yields back exactly the written bits, in order, in pieces of any size.   *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Magic           \* value of the five magic bits of the header

VARIABLES written,       \* bits handed to the writer so far
          file,          \* bytes on the underlying stream
          rbits,         \* bits a reader of `file` can still deliver, from the start
          rpos,          \* number of bits the reader has consumed
          rok            \* header accepted
bsvars == <<written, file, rbits, rpos, rok>>

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
BitsToByte(b) == b[1] * 128 + b[2] * 64 + b[3] * 32 + b[4] * 16 + b[5] * 8 + b[6] * 4 + b[7] * 2 + b[8]
ByteBit(v, k) == (v \div Pow2[9 - k]) % 2           \* k = 1 is the most significant bit
ByteToBits(v) == [k \in 1..8 |-> ByteBit(v, k)]
Zeros(n) == [k \in 1..n |-> 0]
Padding(n) == (8 - (n % 8)) % 8
Header(n) == Magic * 8 + Padding(n)
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
Min2(a, b) == IF a < b THEN a ELSE b

\* What a stream holds once the writer has finished.
Encode(bits) ==
    LET padded == bits \o Zeros(Padding(Len(bits)))
    IN <<Header(Len(bits))>> \o [k \in 1..(Len(padded) \div 8) |-> BitsToByte(SubSeq(padded, 8 * k - 7, 8 * k))]

\* What a reader may deliver from a stream.
HeaderOk(bytes) == Len(bytes) >= 1 /\ bytes[1] \div 8 = Magic
Decode(bytes) ==
    IF ~HeaderOk(bytes) \/ Len(bytes) = 1 THEN <<>>
    ELSE LET n == 8 * (Len(bytes) - 1)
             all == [k \in 1..n |-> ByteBit(bytes[2 + ((k - 1) \div 8)], 1 + ((k - 1) % 8))]
         IN SubSeq(all, 1, n - (bytes[1] % 8))

BSInit == /\ written = <<>> /\ file = <<>> /\ rbits = <<>> /\ rpos = 0 /\ rok = FALSE

\* Only the `size` least significant bits of the value are written.
Write(value, size) ==
    /\ size <= Len(value)
    /\ written' = written \o LastN(value, size)
    /\ UNCHANGED <<file, rbits, rpos, rok>>

Finish == /\ file' = Encode(written)
          /\ UNCHANGED <<written, rbits, rpos, rok>>

\* The stream did not take all of it: the writer tells, and what the stream holds is not known.
Refused(left) == file' = left /\ UNCHANGED <<written, rbits, rpos, rok>>

\* A stream that was not produced by the writer.
Inject(bytes) == /\ file' = bytes /\ written' = <<>> /\ UNCHANGED <<rbits, rpos, rok>>

Open == /\ rbits' = Decode(file) /\ rok' = HeaderOk(file) /\ rpos' = 0 /\ UNCHANGED <<written, file>>

Left == Len(rbits) - rpos
\* Bits delivered by a request for `size` bits, left-aligned in a field of `size` bits.
Delivered(size) == LET n == Min2(size, Left)
                   IN SubSeq(rbits, rpos + 1, rpos + n) \o Zeros(size - n)
Read(size, n, value) ==
    /\ n = Min2(size, Left)
    /\ value = Zeros(Len(value) - size) \o Delivered(size)
    /\ rpos' = rpos + n
    /\ UNCHANGED <<written, file, rbits, rok>>
Peek(size, n, value) ==
    /\ n = Min2(size, Left)
    /\ value = Zeros(Len(value) - size) \o Delivered(size)
    /\ UNCHANGED bsvars
\* The stream could not be read to its end. What is delivered before that is what it holds, but where its
\* bits end cannot be known; it does not count as consumed.
All(bytes) == Decode([k \in 1..Len(bytes) |-> IF k = 1 THEN (bytes[1] \div 8) * 8 ELSE bytes[k]])
OpenBroken(ok) == /\ (ok => HeaderOk(file)) /\ rok' = ok
                  /\ rbits' = (IF ok THEN All(file) ELSE <<>>) /\ rpos' = 0 /\ UNCHANGED <<written, file>>
ReadBroken(size, n, value, stays) ==
    /\ n <= Min2(size, Left)
    /\ value = Zeros(Len(value) - size) \o SubSeq(rbits, rpos + 1, rpos + n) \o Zeros(size - n)
    /\ rpos' = (IF stays THEN rpos ELSE rpos + n)
    /\ UNCHANGED <<written, file, rbits, rok>>

\* A whole byte or word was asked for and fewer bits were left: they are lost.
Short(size) == Left < size /\ rpos' = Len(rbits) /\ UNCHANGED <<written, file, rbits, rok>>
Discard(n) == n <= Left /\ rpos' = rpos + n /\ UNCHANGED <<written, file, rbits, rok>>
\* After a rejected header nothing is promised about what remains.
Consumed(result) == (rok => (result = (Left = 0))) /\ UNCHANGED bsvars

-----------------------------------------------------------------------------
\* Properties of the design.
RoundTrip == file = Encode(written) => (HeaderOk(file) /\ Decode(file) = written)
WholeBytes == \A k \in 1..Len(file) : file[k] \in 0..255
Progress == rpos <= Len(rbits)
=============================================================================
