---------------------------- MODULE LoggerTrace ----------------------------
EXTENDS TraceKit, Logger
TraceInit == TraceKitInit /\ LInit
Step(name) == IsOp(name) /\ Consume
TraceNext ==
    \/ Step("create") /\ Create(Cur.k, Cur.async, Cur.max, Cur.good, Cur.ok, Cur.ta, Cur.tb)
    \/ Step("log") /\ Log(Cur.id, Cur.k, Cur.level, Cur.len, Cur.at)
    \/ Step("logged") /\ Logged(Cur.id, Cur.at)
    \/ Step("sink") /\ Sink(Cur.k, Cur.idx, Cur.level, Cur.id, Cur.len, Cur.same, Cur.t)
    \/ Step("sink_done") /\ SinkDone(Cur.k, Cur.ok)
    \/ Step("set_max") /\ SetMax(Cur.k, Cur.max)
    \/ Step("release") /\ Release(Cur.k)
    \/ Step("sink_gone") /\ SinkGone(Cur.k)
    \/ Step("stopped") /\ ManagerStopped
    \/ Step("quiet") /\ Quiet
    \/ ((Accept \/ Stay) /\ UNCHANGED lvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, lvars>>
=============================================================================
