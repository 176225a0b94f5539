---------------------------- MODULE StringsTrace ----------------------------
EXTENDS TraceKit, Strings
TraceInit == TraceKitInit /\ SInit
Step(nm) == IsOp(nm) /\ Consume
Classified(r) ==
    /\ r.alpha = IsAlpha(r.c) /\ r.upper = IsUpper(r.c) /\ r.lower = IsLower(r.c) /\ r.digit = IsDigit(r.c)
    /\ r.xdigit = IsXDigit(r.c) /\ r.space = IsSpace(r.c) /\ r.up = ToUpper(r.c) /\ r.down = ToLower(r.c)
TraceNext ==
    \/ Step("set") /\ Set(Cur.s)
    \/ Step("trim") /\ DoTrim /\ str' = Cur.s
    \/ Step("replace") /\ DoReplace(Cur.pat, Cur.by) /\ str' = Cur.s
    \/ Step("remove") /\ DoReplace(Cur.pat, <<>>) /\ str' = Cur.s
    \/ Step("split") /\ Cur.out = Split(str, Cur.d, Cur.n) /\ UNCHANGED str
    \/ Step("wildcard") /\ Cur.ok = WildcardMatch(str, Cur.pat) /\ UNCHANGED str
    \/ Step("size") /\ Cur.n = Len(str) /\ UNCHANGED str
    \/ Step("join") /\ Cur.out = JoinBy(Cur.d, Cur.parts) /\ UNCHANGED str
    \/ Step("random") /\ Len(Cur.out) = Cur.n /\ (\A k \in 1..Len(Cur.out) : IsAlpha(Cur.out[k]) \/ IsDigit(Cur.out[k])) /\ UNCHANGED str
    \/ Step("classify") /\ (\A k \in 1..Len(Cur.chars) : Classified(Cur.chars[k])) /\ UNCHANGED str
    \/ ((Accept \/ Stay) /\ UNCHANGED str)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, str>>
=============================================================================
