--------------------------- MODULE RegistryTrace ---------------------------
EXTENDS TraceKit, Registry
TraceInit == TraceKitInit /\ RInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("create") /\ CreateCall(Cur.t, Cur.k, Cur.n, Cur.good)
    \/ Step("created") /\ CreateRet(Cur.t, Cur.p)
    \/ Step("get") /\ GetCall(Cur.t, Cur.n)
    \/ Step("got") /\ GetRet(Cur.t, Cur.p, Cur.n)
    \/ Step("drop") /\ \E k \in DOMAIN ptr : ptr[k] = Cur.p /\ DropCall(Cur.t, k)
    \/ Step("dropped") /\ DropRet(Cur.t)
    \/ Step("set_default") /\ (IF Cur.p = 0 THEN SetDefault(0) ELSE \E k \in DOMAIN ptr : ptr[k] = Cur.p /\ SetDefault(k))
    \/ Step("get_default") /\ (IF Cur.p = 0 THEN GetDefault(0) ELSE \E k \in DOMAIN ptr : ptr[k] = Cur.p /\ GetDefault(k))
    \/ (More /\ Internal /\ UNCHANGED <<tid, l>>)
    \/ ((Accept \/ Stay) /\ UNCHANGED rvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, rvars>>
=============================================================================
