-------------------------- MODULE PathMonitorTrace --------------------------
EXTENDS TraceKit, PathMonitor
TraceInit == TraceKitInit /\ PInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("new") /\ New(Cur.dirs)
    \/ Step("call") /\ Call(Cur.t, [op |-> Cur.fn, d |-> Cur.d, f |-> Cur.f, h |-> Cur.h, ok |-> FALSE, st |-> "called"])
    \/ Step("ret") /\ Ret(Cur.t, Cur.ok)
    \/ Step("fs") /\ Happens(Cur.d, Cur.f, Cur.kind)
    \/ Step("callback") /\ Callback(Cur.h, Cur.d, Cur.f, Cur.kind)
    \/ Step("quiet") /\ Quiet
    \/ Step("release") /\ Release
    \/ Step("gone") /\ Cur.expired /\ Cur.left = 0 /\ Gone
    \/ Step("rmdir") /\ RemoveDir(Cur.d)
    \/ Step("mkdir") /\ MakeDir(Cur.d)
    \/ (More /\ (Skip \/ \E t \in DOMAIN calls : Effect(t)) /\ UNCHANGED <<tid, l>>)
    \/ ((Accept \/ Stay) /\ UNCHANGED pvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, pvars>>
=============================================================================
