-------------------------- MODULE EndpointsTrace --------------------------
EXTENDS TraceKit, Endpoints
TraceInit == TraceKitInit /\ EInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("new") /\ Cur.v4 = ~Cur.six /\ Cur.v6 = Cur.six /\ New(Cur.beta, Cur.many)
    \/ Step("open") /\ Open(Cur.s, Cur.kind)
    \/ Step("bind") /\ Bind(Cur.s, Cur.to, Cur.port, Cur.reuse, Cur.ok, Cur.bindable, Cur.kaddr, Cur.kport)
    \/ Step("listen") /\ Listen(Cur.s, Cur.ok)
    \/ Step("connect") /\ Connect(Cur.s, Cur.to, Cur.port, Cur.state, Cur.kaddr, Cur.kport)
    \/ Step("accept") /\ AcceptOne(Cur.s, Cur.ok, Cur.new)
    \/ Step("send") /\ Send(Cur.s, Cur.to, Cur.port, Cur.m, Cur.n, Cur.arrived, Cur.same, Cur.kaddr, Cur.kport)
    \/ Step("close") /\ Close(Cur.s)
    \/ Step("look") /\ Look(Cur.s, Cur.open, Cur.local, Cur.remote)
    \/ Step("resolve") /\ Resolve(Cur.to, Cur.ok, Cur.addr)
    \/ Step("refuse") /\ ~Cur.ok /\ Cur.told = 0 /\ UNCHANGED evars
    \/ Step("end") /\ Cur.open = 0 /\ Cur.results = 0 /\ UNCHANGED evars
    \/ ((Accept \/ Stay) /\ UNCHANGED evars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, evars>>
=============================================================================
