--------------------------- MODULE SignalsTrace ---------------------------
EXTENDS TraceKit, Signals
TraceInit == TraceKitInit /\ SInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("setup") /\ Setup(Cur.scripts)
    \/ Step("set") /\ Set(Cur.h)
    \/ Step("isset") /\ IsSet
    \/ Step("arrive") /\ Arrive(Cur.s)
    \/ Step("return") /\ Return(Cur.h)
    \/ Step("raise") /\ Raise(Cur.s)
    \/ Step("call") /\ Enter(Cur.h, Cur.s)
    \/ Step("died") /\ Died(Cur.s)
    \/ Step("ended") /\ Ended
    \/ Step("error") /\ Error(Cur.code, Cur.message, Cur.text)
    \/ Step("time") /\ Time(Cur.days, Cur.seconds, Cur.offset, Cur.text)
    \/ (More /\ Silent /\ UNCHANGED <<tid, l>>)
    \/ ((Accept \/ Stay) /\ UNCHANGED svars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, svars>>
=============================================================================
