--------------------------- MODULE CoderFileTrace ---------------------------
EXTENDS TraceKit, CoderFile
TraceInit == TraceKitInit /\ KInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("put") /\ Put(Cur.path, Cur.kind, Cur.text)
    \/ Step("look") /\ Look(Cur.path, Cur.kind, Cur.text)
    \/ Step("code") /\ ~Cur.threw
        /\ Code(Cur.from, Cur.to, Cur.text, Cur.can, Cur.result, Cur.empty, Cur.seeks, Cur.failed, Cur.ok)
    \/ ((Accept \/ Stay) /\ UNCHANGED kvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, kvars>>
=============================================================================
