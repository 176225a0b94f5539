--------------------------- MODULE OwnershipTrace ---------------------------
EXTENDS TraceKit, Ownership
TraceInit == TraceKitInit /\ OwnInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("kind") /\ Kind(Cur.kind)
    \/ Step("create") /\ Create(Cur.k, Cur.h, Cur.async)
    \/ Step("move") /\ Move(Cur.k, Cur.j)
    \/ Step("assign") /\ Assign(Cur.k, Cur.j)
    \/ Step("close") /\ Close(Cur.k)
    \/ Step("destroy") /\ Destroy(Cur.k)
    \/ Step("mode") /\ Mode(Cur.k, Cur.async, Cur.ok)
    \/ Step("listen") /\ Listen(Cur.k, Cur.ok)
    \/ Step("accept") /\ AcceptOne(Cur.k, Cur.ok)
    \/ Step("connect") /\ Connect(Cur.k, Cur.reach, Cur.result)
    \/ Step("send") /\ Send(Cur.k, Cur.n)
    \/ Step("state") /\ State(Cur.slots, Cur.open)
    \/ Step("end") /\ Cur.open = 0 /\ UNCHANGED ovars
    \/ ((Accept \/ Stay) /\ UNCHANGED ovars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, ovars>>
=============================================================================
