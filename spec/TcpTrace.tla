------------------------------ MODULE TcpTrace ------------------------------
EXTENDS TraceKit, Tcp
TraceInit == TraceKitInit /\ TcpInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("client") /\ Client(Cur.s)
    \/ Step("listener") /\ Listener(Cur.s)
    \/ Step("listen") /\ Listen(Cur.s, Cur.ok)
    \/ Step("fault") /\ Fault(Cur.s)
    \/ Step("start") /\ Start(Cur.o, Cur.kind, Cur.s, Cur.m, Cur.sync)
    \/ Step("connect_end") /\ ConnectEnd(Cur.o, Cur.state)
    \/ Step("accept_end") /\ AcceptEnd(Cur.o, Cur.p, Cur.s)
    \/ Step("send_end") /\ SendEnd(Cur.o, Cur.n)
    \/ Step("recv_end") /\ ReceiveEnd(Cur.o, Cur.n, Cur.same, Cur.limit)
    \/ Step("close") /\ Close(Cur.s)
    \/ Step("release") /\ Release(Cur.s)
    \/ Step("is_open") /\ IsOpen(Cur.s, Cur.open)
    \/ Step("quiet") /\ Quiet
    \/ Step("descriptors") /\ Cur.left = 0 /\ UNCHANGED tvars
    \/ ((Accept \/ Stay) /\ UNCHANGED tvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, tvars>>
=============================================================================
