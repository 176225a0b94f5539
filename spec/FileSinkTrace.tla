--------------------------- MODULE FileSinkTrace ---------------------------
EXTENDS TraceKit, FileSink
TraceInit == TraceKitInit /\ FInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("open") /\ Open(Cur.g, Cur.limit, Cur.compress, Cur.encodable, Cur.writable, Cur.ok)
    \/ Step("set") /\ Set(Cur.g, Cur.limit, Cur.compress, Cur.encodable)
    \/ Step("log") /\ Log(Cur.g, Cur.rec, Cur.size, Cur.writable)
    \/ Step("lose") /\ Lose(Cur.g, Cur.n)
    \/ Step("block") /\ Block(Cur.g, Cur.n)
    \/ Step("dir") /\ Directory(Cur.files)
    \/ ((Accept \/ Stay) /\ UNCHANGED fvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, fvars>>
=============================================================================
