---------------------------- MODULE MonitorTrace ----------------------------
EXTENDS TraceKit, Monitor
TraceInit == TraceKitInit /\ MInit
Step(name) == IsOp(name) /\ Consume
Seen(ev) == [count |-> ev.count, cpu |-> ev.cpu, proc |-> ev.proc, total |-> ev.total, used |-> ev.used, rss |-> ev.rss]
TraceNext ==
    \/ Step("sample") /\ Sample([cpus |-> Cur.cpus, cpu |-> Cur.cpu, proc |-> Cur.proc,
                                 mem |-> [ok |-> Cur.mem, total |-> Cur.total, used |-> Cur.used, unit |-> Cur.unit], rss |-> Cur.rss])
    \/ Step("create") /\ Create(Cur.runs, Cur.ok)
    \/ Step("look") /\ Look(Cur.m, Cur.v)
    \/ Step("observe") /\ Observe(Seen(Cur), Cur.settled)
    \/ Step("release") /\ Release
    \/ Step("after") /\ After(Cur.reads, Cur.expired)
    \/ ((Accept \/ Stay) /\ UNCHANGED mvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, mvars>>
=============================================================================
