------------------------------- MODULE LexerMC -------------------------------
(* Every call at every position of every short text.                          *)
EXTENDS Lexer, TLC
CONSTANTS Alphabet, MaxLen
VARIABLE took  \* how many characters have been consumed one by one since the text was opened
mcvars == <<lvars, took>>
Next == \/ \E n \in 0..MaxLen : \E s \in [1..n -> Alphabet] : text = <<>> /\ Open(s) /\ took' = <<>>
        \/ \E ahead \in -1..2 : Peek(ahead, CharAt(pos + ahead)) /\ UNCHANGED took
        \/ Consume1(CharAt(pos)) /\ took' = IF CharAt(pos) = None THEN took ELSE Append(took, CharAt(pos))
        \/ \E c \in Alphabet, ok \in BOOLEAN : ConsumeIf(c, ok) /\ took' = IF ok THEN Append(took, c) ELSE took
        \/ \E base \in {2, 8, 10, 16} :
              LET ds == IF pos < Len(text) THEN DigitsAt(text, pos + 1, base) ELSE <<>> IN
              \/ Number(base, TRUE, Value(base, ds)) /\ took' = took \o SubSeq(text, pos + 1, pos + Len(ds))
              \/ Number(base, FALSE, <<>>) /\ pos' = pos /\ UNCHANGED took
Spec == LInit /\ took = <<>> /\ [][Next]_mcvars
\* what was consumed is what the text begins with, and never goes beyond its end
Consumed == pos <= Len(text) /\ took = SubSeq(text, 1, pos)
=============================================================================
