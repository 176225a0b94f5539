----------------------------- MODULE LexerTrace -----------------------------
EXTENDS TraceKit, Lexer
TraceInit == TraceKitInit /\ LInit
Step(nm) == IsOp(nm) /\ Consume
Where == pos' = Cur.pos
TraceNext ==
    \/ Step("open") /\ Open(Cur.text) /\ Where
    \/ Step("peek") /\ Peek(Cur.ahead, Cur.c) /\ Where
    \/ Step("consume") /\ Consume1(Cur.c) /\ Where
    \/ Step("consume_if") /\ ConsumeIf(Cur.c, Cur.ok) /\ Where
    \/ Step("number") /\ Number(Cur.base, Cur.ok, Cur.value) /\ Where
    \/ Step("set") /\ SetPosition(Cur.to) /\ Where
    \/ Step("view") /\ Cur.text = text /\ UNCHANGED lvars /\ Where
    \/ ((Accept \/ Stay) /\ UNCHANGED lvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, lvars>>
=============================================================================
