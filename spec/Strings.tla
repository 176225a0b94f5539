------------------------------ MODULE Strings ------------------------------
(* Utilities for strings, as operations on a string which is changed in      *)
(* place and questions about it.  Strings are sequences of code units.       *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets

\* ---- characters of the C locale
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsDigit(c) == c >= 48 /\ c <= 57
IsXDigit(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
ToLower(c) == IF IsUpper(c) THEN c + 32 ELSE c

\* ---- finding
At(s, p, pat) == p + Len(pat) - 1 <= Len(s) /\ \A k \in 1..Len(pat) : s[p + k - 1] = pat[k]
RECURSIVE Find(_, _, _)
Find(s, p, pat) == IF p + Len(pat) - 1 > Len(s) THEN 0 ELSE IF At(s, p, pat) THEN p ELSE Find(s, p + 1, pat)

\* ---- replacing every occurrence, from left to right; what was put in is not looked at again
RECURSIVE ReplaceFrom(_, _, _, _)
ReplaceFrom(s, p, pat, by) ==
    LET f == Find(s, p, pat) IN
    IF f = 0 THEN SubSeq(s, p, Len(s)) ELSE SubSeq(s, p, f - 1) \o by \o ReplaceFrom(s, f + Len(pat), pat, by)
Replace(s, pat, by) == IF pat = <<>> THEN s ELSE ReplaceFrom(s, 1, pat, by)

Trim(s) ==
    LET solid == {k \in 1..Len(s) : ~IsSpace(s[k])}
    IN IF solid = {} THEN <<>>
       ELSE SubSeq(s, CHOOSE k \in solid : \A j \in solid : k <= j, CHOOSE k \in solid : \A j \in solid : k >= j)

\* ---- the pieces between delimiters which are not empty; the last of at most n takes what is left of them
RECURSIVE Pieces(_, _, _, _)
Pieces(s, d, p, piece) ==
    LET done == IF piece = <<>> THEN <<>> ELSE <<piece>>
    IN IF p > Len(s) THEN done
       ELSE IF s[p] = d THEN done \o Pieces(s, d, p + 1, <<>>) ELSE Pieces(s, d, p + 1, Append(piece, s[p]))
RECURSIVE JoinBy(_, _)
JoinBy(d, xs) == IF xs = <<>> THEN <<>> ELSE IF Len(xs) = 1 THEN xs[1] ELSE xs[1] \o <<d>> \o JoinBy(d, Tail(xs))
Split(s, d, n) ==
    LET all == Pieces(s, d, 1, <<>>)
    IN IF n = 0 \/ Len(all) <= n THEN all ELSE Append(SubSeq(all, 1, n - 1), JoinBy(d, SubSeq(all, n, Len(all))))

\* ---- wildcards: each stands for any sequence of characters, everything else for itself
Star == 42
\* from the positions reachable before the pattern's k-th character to those reachable at its end
RECURSIVE Reach(_, _, _, _)
Reach(s, pat, k, P) ==
    IF k > Len(pat) \/ P = {} THEN P
    ELSE Reach(s, pat, k + 1, IF pat[k] = Star THEN {q \in 0..Len(s) : \E p \in P : p <= q}
                             ELSE {p + 1 : p \in {q \in P : q < Len(s) /\ s[q + 1] = pat[k]}})
Matches(s, pat) == Len(s) \in Reach(s, pat, 1, {0})
WildcardMatch(s, pat) == pat # <<>> /\ Matches(s, pat)

\* ---- the string which is worked on
VARIABLE str
SInit == str = <<>>
Set(s) == str' = s
DoTrim == str' = Trim(str)
DoReplace(pat, by) == str' = Replace(str, pat, by)
=============================================================================
