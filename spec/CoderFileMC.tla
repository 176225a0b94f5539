------------------------------ MODULE CoderFileMC ------------------------------
(* A coder which reads and writes piece by piece, and learns of a failure at any *)
(* piece, against the specification; what is coded there and back is the same.   *)
EXTENDS CoderFile
CONSTANTS MaxLen, MaxSteps
VARIABLES steps, last, wrong
vars == <<kvars, steps, last, wrong>>
Paths == {"a", "b", "c"}
Texts == UNION {[1..n -> {0, 1}] : n \in 0..MaxLen}
\* encoding doubles each symbol; what has other pairs cannot be decoded
Encoded(t) == [k \in 1..2 * Len(t) |-> t[(k + 1) \div 2]]
CanDecode(t) == Len(t) % 2 = 0 /\ \A k \in 1..(Len(t) \div 2) : t[2 * k - 1] = t[2 * k]
Decoded(t) == [k \in 1..(Len(t) \div 2) |-> t[2 * k]]
Text(p) == IF Kind(p) = "file" THEN files[p].text ELSE <<>>
Nothing == [dir |-> "none", ok |-> FALSE, to |-> "a", text |-> <<>>]
None == [dir |-> "none", from |-> "a", to |-> "a", ok |-> FALSE, text |-> <<>>, before |-> Nothing]
MCInit == KInit /\ steps = 0 /\ last = None /\ wrong = FALSE
\* the implementation: read pieces until the end or a failure, write what was made of each
Run(dir, in, out, readFails, writeFails, seeks) ==
    LET opened == Kind(in) # "none" /\ Kind(out) # "dir"
        text == Text(in)
        can == dir = "encode" \/ CanDecode(text)
        result == IF dir = "encode" THEN Encoded(text) ELSE IF can THEN Decoded(text) ELSE <<>>
        readOk == Kind(in) # "dir" /\ ~readFails
        writeOk == ~writeFails /\ (Kind(out) = "full" => result = <<>>) /\ ~(seeks /\ Kind(out) = "pipe")
    IN [ok |-> opened /\ readOk /\ can /\ writeOk, can |-> can, text |-> text, result |-> result]
Next ==
    /\ steps < MaxSteps /\ steps' = steps + 1
    /\ \/ \E p \in Paths, kind \in Kinds, t \in Texts :
            (kind # "file" => t = <<>>) /\ Put(p, kind, t) /\ last' = None /\ UNCHANGED wrong
       \/ \E in, out \in Paths, dir \in {"encode", "decode"}, rf, wf, seeks \in BOOLEAN :
            /\ in # out /\ Kind(in) \notin {"pipe", "full"} /\ Text(in) # Unknown
            /\ LET r == Run(dir, in, out, rf, wf, seeks)
                   A == Code(in, out, r.text, r.can, r.result, r.result = <<>>, seeks, rf \/ wf, r.ok)
               IN /\ IF ENABLED A THEN A /\ UNCHANGED wrong ELSE wrong' = TRUE /\ UNCHANGED kvars
                  /\ last' = [dir |-> dir, from |-> in, to |-> out, ok |-> r.ok, text |-> r.text, before |-> [dir |-> last.dir, ok |-> last.ok, to |-> last.to, text |-> last.text]]
Spec == MCInit /\ [][Next]_vars
Conforms == ~wrong
\* what was encoded to a file, and decoded from it, is the text
ThereAndBack ==
    (/\ last.dir = "decode" /\ last.ok /\ last.before.dir = "encode" /\ last.before.ok
     /\ last.before.to = last.from /\ Kind(last.from) = "file" /\ Kind(last.to) = "file")
    => files[last.to].text = last.before.text
Untouched == [][\A p \in Paths : (p # last'.to /\ last'.dir # "none") => (p \in DOMAIN files => files'[p] = files[p])]_vars
=============================================================================
