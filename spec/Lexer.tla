-------------------------------- MODULE Lexer --------------------------------
(* A lexer: a position in a text, from which characters and numbers are read. *)
EXTENDS Numerals
VARIABLES text, pos \* pos counts the characters before it
lvars == <<text, pos>>
LInit == text = <<>> /\ pos = 0
Open(s) == text' = s /\ pos' = 0
None == -1
CharAt(p) == IF p >= 0 /\ p < Len(text) THEN text[p + 1] ELSE None
Peek(ahead, c) == c = CharAt(pos + ahead) /\ UNCHANGED lvars
Consume1(c) == c = CharAt(pos) /\ pos' = (IF c = None THEN pos ELSE pos + 1) /\ UNCHANGED text
ConsumeIf(c, ok) == ok = (CharAt(pos) = c) /\ pos' = (IF ok THEN pos + 1 ELSE pos) /\ UNCHANGED text
\* A number is as many digits as there are; one which does not fit is not returned, and then it is left
\* open how many of them have been read.
Number(base, ok, value) ==
    LET ds == IF pos < Len(text) THEN DigitsAt(text, pos + 1, base) ELSE <<>>
        v == Value(base, ds)
    IN /\ ok = (ds # <<>> /\ Fits(FALSE, v, 64, FALSE))
       /\ ok => value = v
       /\ IF ok \/ ds = <<>> THEN pos' = pos + Len(ds) ELSE pos' \in pos..(pos + Len(ds))
       /\ UNCHANGED text
SetPosition(p) == pos' = p /\ UNCHANGED text
=============================================================================
