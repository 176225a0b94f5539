------------------------------ MODULE StringsMC ------------------------------
(* The utilities agree with each other, for all short strings.               *)
EXTENDS Strings, TLC
CONSTANTS Alphabet, MaxLen, MaxPat
VARIABLES pat, by
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
Init == str \in Texts(MaxLen) /\ pat \in Texts(MaxPat) /\ by \in Texts(1)
Next == UNCHANGED <<str, pat, by>>
Spec == Init /\ [][Next]_<<str, pat, by>>
\* how often a pattern occurs, counted from left to right
RECURSIVE Occurrences(_)
Occurrences(p) == LET f == Find(str, p, pat) IN IF f = 0 THEN 0 ELSE 1 + Occurrences(f + Len(pat))
Lengths == pat # <<>> => Len(Replace(str, pat, by)) = Len(str) + Occurrences(1) * (Len(by) - Len(pat))
Undone == (pat # <<>> /\ by # <<>> /\ (\A k \in 1..Len(by) : \A j \in 1..Len(str) : str[j] # by[k])) => Replace(Replace(str, pat, by), by, pat) = str
Inside == Star \notin Range(pat) => ((Find(str, 1, pat) # 0) <=> Matches(str, <<Star>> \o pat \o <<Star>>))
Plain == (pat # <<>> /\ Star \notin Range(pat)) => (WildcardMatch(str, pat) <=> str = pat)
Surrounds == WildcardMatch(str, pat) => WildcardMatch(str \o by, pat \o <<Star>>) /\ WildcardMatch(by \o str, <<Star>> \o pat)
SplitJoin == \A d \in Alphabet : \A n \in 0..3 :
    LET parts == Split(str, d, n) IN /\ n > 0 => Len(parts) <= n
                                     /\ JoinBy(d, parts) = JoinBy(d, Split(str, d, 0))
                                     /\ \A k \in 1..Len(parts) : parts[k] # <<>>
Trimmed == LET t == Trim(str) IN /\ t # <<>> => ~IsSpace(t[1]) /\ ~IsSpace(t[Len(t)])
                                 /\ Trim(t) = t /\ (t # <<>> => Find(str, 1, t) # 0)
=============================================================================
