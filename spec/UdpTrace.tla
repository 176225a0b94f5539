------------------------------ MODULE UdpTrace ------------------------------
EXTENDS TraceKit, Udp
TraceInit == TraceKitInit /\ UdpInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("socket") /\ Socket(Cur.s, Cur.packet)
    \/ Step("fault") /\ Fault(Cur.s)
    \/ Step("start") /\ Start(Cur.o, Cur.kind, Cur.s, Cur.d, Cur.m, Cur.sync)
    \/ Step("sent") /\ Sent(Cur.s, Cur.n)
    \/ Step("taken") /\ Taken(Cur.s, Cur.n)
    \/ Step("send_end") /\ SendEnd(Cur.o, Cur.n)
    \/ Step("recv_end") /\ ReceiveEnd(Cur.o, Cur.data)
    \/ Step("close") /\ Close(Cur.s)
    \/ Step("release") /\ Release(Cur.s)
    \/ Step("is_open") /\ IsOpen(Cur.s, Cur.open)
    \/ Step("quiet") /\ Quiet
    \/ Step("descriptors") /\ Cur.left = 0 /\ UNCHANGED uvars
    \/ ((Accept \/ Stay) /\ UNCHANGED uvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, uvars>>
=============================================================================
