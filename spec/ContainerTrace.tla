--------------------------- MODULE ContainerTrace ---------------------------
EXTENDS TraceKit, Container
TraceInit == TraceKitInit /\ CInit
TNew == IsOp("new") /\ New(Cur.kind, Cur.threads) /\ Consume
TCall == IsOp("inv") /\ Call(Cur.t, Cur.f, Cur.x) /\ Consume
TReturn == IsOp("ret") /\ Cur.r # GaveUp /\ Return(Cur.t, Cur.r) /\ Consume
\* A timed pop which gave up: it was entitled to, it waited long enough, the caller's item is untouched.
\* (microseconds by which other threads may keep a thread from running)
Delay == 60000
TLate == IsOp("late") /\ Cur.r = 777 /\ Cur.us >= pend[Cur.t].x * 1000 /\ Cur.us <= pend[Cur.t].x * 1000 + Delay /\ Return(Cur.t, GaveUp) /\ Consume
\* Effects may be delayed until some return needs them.
Needed == More /\ Cur.op \in {"ret", "late"} /\ pend[Cur.t].st = "called"
TEffect == Needed /\ (\E t \in DOMAIN pend : TakeEffect(t)) /\ UNCHANGED <<tid, l>>
TraceNext == TNew \/ TCall \/ TReturn \/ TLate \/ TEffect \/ ((Accept \/ Stay) /\ UNCHANGED cvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, cvars>>
=============================================================================
