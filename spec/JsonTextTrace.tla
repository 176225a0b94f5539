--------------------------- MODULE JsonTextTrace ----------------------------
EXTENDS TraceKit, JsonText
Step(nm) == IsOp(nm) /\ Consume
\* Numbers of more digits than the type holds are rounded, and compared no further.
RECURSIVE Match(_, _)
Match(v, w) ==
    IF v[1] # w[1] THEN FALSE
    ELSE CASE IsA(v, "a") -> Len(v[2]) = Len(w[2]) /\ \A k \in 1..Len(v[2]) : Match(v[2][k], w[2][k])
           [] IsA(v, "o") -> Len(v[2]) = Len(w[2]) /\ \A k \in 1..Len(v[2]) : v[2][k][1] = w[2][k][1] /\ Match(v[2][k][2], w[2][k][2])
           [] IsA(v, "f") -> v[2] = w[2] /\ (v = w \/ Len(v[3]) > 17)
           [] OTHER -> v = w
Features(c, t, a) == [comments |-> c, trailing |-> t, any |-> a]
Parsed(ok, v, r) == ok = r.ok /\ (ok => Match(r.v, v))
TraceNext ==
    \/ Step("parse") /\ Parsed(Cur.ok, Cur.v, Parse(Cur.text, Features(Cur.comments, Cur.trailing, Cur.any)))
    \/ Step("write") /\ Cur.text \in Texts(Cur.v)
    \/ Step("string") /\ LET s == Unquote(Cur.text) IN Cur.ok = (s # <<None>>) /\ (Cur.ok => Cur.v = s)
    \/ (Accept \/ Stay)
TraceSpec == TraceKitInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
