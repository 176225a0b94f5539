----------------------------- MODULE BitStreamMC -----------------------------
(* Exhaustive exploration of the design: every sequence of writes of at most *)
(* MaxBits bits, then every way of reading them back.                        *)
EXTENDS BitStream
CONSTANTS MaxBits, MaxPiece
VARIABLES phase, got
mcvars == <<bsvars, phase, got>>

AllBits(n) == [1..n -> {0, 1}]
MCInit == BSInit /\ phase = "write" /\ got = <<>>
MCWrite == /\ phase = "write"
           /\ \E n \in 0..MaxPiece : \E extra \in {0, 1} : \E v \in AllBits(n + extra) :
                Len(written) + n <= MaxBits /\ n > 0 /\ Write(v, n)
           /\ UNCHANGED <<phase, got>>
MCFinish == phase = "write" /\ Finish /\ phase' = "open" /\ UNCHANGED got
MCOpen == phase = "open" /\ Open /\ phase' = "read" /\ UNCHANGED got
MCRead == /\ phase = "read"
          /\ \E size \in 1..MaxPiece :
                LET n == Min2(size, Left) IN
                   /\ Read(size, n, Delivered(size))
                   /\ got' = got \o SubSeq(Delivered(size), 1, n)
          /\ UNCHANGED phase
MCNext == MCWrite \/ MCFinish \/ MCOpen \/ MCRead
MCSpec == MCInit /\ [][MCNext]_mcvars
\* Whatever the sizes of the reads, what has been read is a prefix of what was written, and
\* running dry means that everything came back.
ReadsArePrefix == phase = "read" => got = SubSeq(written, 1, Len(got))
DryMeansAll == (phase = "read" /\ Left = 0) => got = written
=============================================================================
