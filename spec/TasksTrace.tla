----------------------------- MODULE TasksTrace -----------------------------
EXTENDS TraceKit, Tasks
TraceInit == TraceKitInit /\ TInit
Step(name) == IsOp(name) /\ Consume
TraceNext ==
    \/ Step("new") /\ New(Cur.runners, Cur.owners)
    \/ Step("post") /\ Post(Cur.id, Cur.r, Cur.late, Cur.us, Cur.o, Cur.reply, Cur.res, Cur.at)
    \/ Step("posted") /\ Posted(Cur.id, Cur.ok)
    \/ Step("run") /\ Run(Cur.id, Cur.arg, Cur.at)
    \/ Step("end") /\ End(Cur.id)
    \/ Step("drop_owner") /\ DropOwner(Cur.o)
    \/ Step("owner_gone") /\ OwnerGone(Cur.o)
    \/ Step("drop_runner") /\ DropRunner(Cur.r)
    \/ Step("stop") /\ Stop
    \/ Step("stopped") /\ Stopped(Cur.ok)
    \/ Step("start") /\ Start
    \/ Step("started") /\ Started(Cur.ok)
    \/ Step("manager_gone") /\ Cur.expired /\ ManagerGone
    \/ Step("quiet") /\ Quiet(Cur.at)
    \* every closure has been destroyed
    \/ Step("done") /\ Cur.left = 0 /\ UNCHANGED tvars
    \/ ((Accept \/ Stay) /\ UNCHANGED tvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, tvars>>
=============================================================================
