---------------------------- MODULE ServiceTrace ----------------------------
EXTENDS TraceKit, Service
TraceInit == TraceKitInit /\ SInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("open") /\ Open(Cur.s)
    \/ Step("request") /\ Request(Cur.r, Cur.s, Cur.kind)
    \/ Step("requested") /\ Requested(Cur.r)
    \/ Step("arrive") /\ Arrive(Cur.s)
    \/ Step("take") /\ Take(Cur.s, Cur.ok)
    \/ Step("begin") /\ Begin(Cur.r, Cur.right)
    \/ Step("end") /\ End(Cur.r)
    \/ Step("close") /\ Close(Cur.s)
    \/ Step("release") /\ Release(Cur.s)
    \/ Step("dead") /\ Dead(Cur.s)
    \/ Step("quiet") /\ Quiet
    \/ Step("release_service") /\ ReleaseService
    \/ Step("service_gone") /\ ServiceGone(Cur.expired)
    \/ Step("descriptors") /\ Cur.left = 0 /\ UNCHANGED svars
    \/ ((Accept \/ Stay) /\ UNCHANGED svars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, svars>>
=============================================================================
