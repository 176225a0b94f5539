------------------------------ MODULE CoderFile ------------------------------
(* Encoding and decoding from file to file (fly::coders::Encoder, Decoder).    *)
(*                                                                             *)
(* What a coder makes of a text is given with each step, as the same coder     *)
(* makes it of a string in memory (Base64 and Huffman say what that is).       *)
(* Coding succeeds exactly if the whole input could be read and coded, and all *)
(* of the result could be written; then the output holds the result.  Failure  *)
(* is told by the returned value only.  Nothing but the output is written.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES files   \* path -> [kind, text]
kvars == <<files>>
\* "full" is a device without space, "null" one which takes everything and gives nothing, "pipe" can only be
\* written from the beginning to the end
Kinds == {"none", "file", "dir", "full", "null", "pipe"}
KInit == files = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Kind(p) == IF p \in DOMAIN files THEN files[p].kind ELSE "none"
Unknown == <<-1>>   \* what a failure left behind
Known(p) == Kind(p) \in {"file", "pipe"} /\ files[p].text # Unknown

\* from outside
Put(p, kind, text) == kind \in Kinds /\ files' = With(files, p, [kind |-> kind, text |-> text])
\* what is found in a file, or what comes out of a pipe
\* (a failure may have left no file at all)
Look(p, kind, text) == /\ \/ kind = Kind(p) /\ (Known(p) => files[p].text = text)
                          \/ kind = "none" /\ Kind(p) = "file" /\ ~Known(p)
                       /\ files' = With(files, p, [kind |-> kind, text |-> text])

Readable(p) == Kind(p) \in {"file", "null"}
\* can: the coder makes `result` of this text; empty: which takes no space
\* seeks: the coder goes back to write the beginning once more
\* failed: reading or writing failed on the way
Code(in, out, text, can, result, empty, seeks, failed, ok) ==
    /\ in # out /\ Kind(in) \notin {"pipe", "full"}
    /\ Known(in) => files[in].text = text
    /\ LET may == /\ Readable(in) /\ can /\ ~failed
                  /\ Kind(out) # "dir" /\ (Kind(out) = "full" => empty)
       IN IF seeks /\ Kind(out) = "pipe" THEN ok => may ELSE ok = may
    /\ files' = IF Kind(out) = "none"
                   THEN IF ok THEN With(files, out, [kind |-> "file", text |-> result])
                        ELSE With(files, out, [kind |-> "file", text |-> Unknown])
                ELSE IF Kind(out) \in {"file", "pipe"}
                   THEN With(files, out, [kind |-> Kind(out), text |-> IF ok THEN result ELSE Unknown])
                ELSE files
=============================================================================
