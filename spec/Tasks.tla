------------------------------- MODULE Tasks -------------------------------
(* Tasks, the runners they are posted to, and the manager which runs them.   *)
(* Time is counted in steps of the history (`now`, which grows with every    *)
(* event) for ordering, and in microseconds (`at`) for delays.               *)
(*                                                                           *)
(* A task is queued at some moment between the start and the end of its      *)
(* post; a delayed one at some moment after its delay; a reply at some       *)
(* moment after its task ended and before anything else runs on the same     *)
(* sequenced runner.  [qa, qb] is that interval.  A sequenced runner starts  *)
(* its tasks one at a time and in the order in which they were queued, so a  *)
(* task may not start while one which was certainly queued before it has not.*)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES now,       \* index of the current event
          kinds,     \* runner -> "sequenced" | "parallel"
          gone,      \* runners released by their user
          dead,      \* owners released, as far as known: "alive", "released", "lost", "dead"
          task,      \* id -> record
          mgr        \* "running", "stopping", "stopped", "none"
tvars == <<now, kinds, gone, dead, task, mgr>>

Never == 1000000000
FarUs == 1000000  \* a delay which outlasts the time for which the system is left alone
TInit == now = 0 /\ kinds = <<>> /\ gone = {} /\ dead = <<>> /\ task = <<>> /\ mgr = "none"
Tick == now' = now + 1

New(ks, owners) ==
    /\ kinds' = [r \in 0..(Len(ks) - 1) |-> ks[r + 1]]
    /\ dead' = [o \in 0..(owners - 1) |-> "alive"]
    /\ gone' = {} /\ task' = <<>> /\ mgr' = "running" /\ Tick

With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* st: "posting", "waiting", "running", "ended", "refused", "skipped"
Post(id, r, late, us, o, reply, res, at) ==
    /\ id \notin DOMAIN task
    /\ task' = With(task, id, [st |-> "posting", r |-> r, late |-> late, far |-> us >= FarUs, due |-> at + us, o |-> o, reply |-> reply,
                               qa |-> now, qb |-> Never, arg |-> 0, res |-> res])
    /\ Tick /\ UNCHANGED <<kinds, gone, dead, mgr>>

\* Posting is refused only when the manager does not exist any more; then everything is refused, but that
\* a sequenced runner which still waits for the end of an earlier task keeps what is posted for later.
Posted(id, ok) ==
    /\ id \in DOMAIN task
    /\ mgr # "none" => ok
    /\ mgr = "none" /\ ok => /\ kinds[task[id].r] = "sequenced" /\ ~task[id].late
                             /\ \E y \in DOMAIN task : y # id /\ task[y].r = task[id].r /\ task[y].st = "waiting"
    /\ task' = [task EXCEPT ![id].st = IF ~ok THEN "refused" ELSE IF @ = "posting" THEN "waiting" ELSE @,
                            ![id].qb = IF ok /\ ~task[id].late THEN now ELSE @]
    /\ ~ok => task[id].st = "posting"
    /\ Tick /\ UNCHANGED <<kinds, gone, dead, mgr>>

Sequenced(r) == kinds[r] = "sequenced"
Waiting(x) == task[x].st \in {"posting", "waiting"}
OwnerDead(x) == task[x].o >= 0 /\ dead[task[x].o] \in {"lost", "dead"}
\* A released owner is destroyed with the last reference to it, a moment before that is noticed.
MayBeLost(y) == /\ task[y].o >= 0
                /\ dead[task[y].o] # "alive"
                /\ \A z \in DOMAIN task : task[z].o = task[y].o => task[z].st # "running"
Before(y, x) == task[y].qb < task[x].qa
Same(y, x) == y # x /\ task[y].r = task[x].r

Run(id, arg, at) ==
    /\ id \in DOMAIN task
    /\ mgr \in {"running", "stopping", "starting"}
    /\ Waiting(id)
    /\ at >= task[id].due
    /\ ~OwnerDead(id)
    /\ arg = task[id].arg
    /\ LET r == task[id].r
           overtaken == {y \in DOMAIN task : Sequenced(r) /\ Same(y, id) /\ Waiting(y) /\ Before(y, id)}
           others == {y \in DOMAIN task : Same(y, id)}
       IN /\ Sequenced(r) => \A y \in others : task[y].st # "running"
          /\ \A y \in overtaken : MayBeLost(y) /\ task[y].o # task[id].o
          /\ dead' = [o \in DOMAIN dead |-> IF dead[o] = "released" /\ \E y \in overtaken : task[y].o = o THEN "lost" ELSE dead[o]]
          /\ task' = [y \in DOMAIN task |->
                        IF y = id THEN [task[y] EXCEPT !.st = "running"]
                        ELSE IF y \in overtaken THEN [task[y] EXCEPT !.st = "skipped"]
                        \* replies to earlier tasks of this runner are queued by now
                        ELSE IF Sequenced(r) /\ y \in others /\ task[y].st = "waiting" /\ ~task[y].late
                                /\ task[y].qb = Never THEN [task[y] EXCEPT !.qb = now]
                        ELSE task[y]]
    /\ Tick /\ UNCHANGED <<kinds, gone, mgr>>

\* The result of a task is only known to its reply; `res` says that the reply takes one (the id of the task).
End(id) ==
    /\ task[id].st = "running"
    /\ ~OwnerDead(id)
    /\ LET t == task[id]
           ended == [task EXCEPT ![id].st = "ended"]
       IN task' = IF t.reply = 0 THEN ended
                  ELSE With(ended, t.reply, [st |-> "waiting", r |-> t.r, late |-> FALSE, far |-> FALSE, due |-> 0, o |-> t.o,
                                             reply |-> 0, qa |-> now, qb |-> Never,
                                             arg |-> IF t.res THEN id ELSE 0, res |-> FALSE])
    /\ Tick /\ UNCHANGED <<kinds, gone, dead, mgr>>

DropOwner(o) == dead' = [dead EXCEPT ![o] = IF @ = "alive" THEN "released" ELSE @] /\ Tick /\ UNCHANGED <<kinds, gone, task, mgr>>
\* An owner is destroyed only after its user released it and no task which uses it is running.
OwnerGone(o) == /\ dead[o] \in {"released", "lost"} \/ mgr = "none"
                /\ \A x \in DOMAIN task : task[x].o = o => task[x].st # "running"
                /\ dead' = [dead EXCEPT ![o] = "dead"] /\ Tick /\ UNCHANGED <<kinds, gone, task, mgr>>
DropRunner(r) == gone' = gone \cup {r} /\ Tick /\ UNCHANGED <<kinds, dead, task, mgr>>

Stop == mgr' = (IF mgr = "running" THEN "stopping" ELSE mgr) /\ Tick /\ UNCHANGED <<kinds, gone, dead, task>>
Stopped(ok) == /\ ok = (mgr = "stopping")
               /\ \A x \in DOMAIN task : task[x].st # "running"
               /\ mgr' = "stopped" /\ Tick /\ UNCHANGED <<kinds, gone, dead, task>>
\* From the call on, tasks may run.
Start == mgr' = (IF mgr = "stopped" THEN "starting" ELSE mgr) /\ Tick /\ UNCHANGED <<kinds, gone, dead, task>>
Started(ok) == ok = (mgr = "starting") /\ mgr' = "running" /\ Tick /\ UNCHANGED <<kinds, gone, dead, task>>
\* The manager's last reference was dropped (its threads were stopped before).
ManagerGone == mgr = "stopped" /\ mgr' = "none" /\ Tick /\ UNCHANGED <<kinds, gone, dead, task>>

\* The system was left alone for long enough while the manager was running: everything accepted has been
\* run, unless its owner or its runner is not there any more, or its delay is not over.
Quiet(at) ==
    /\ mgr = "running"
    /\ \A x \in DOMAIN task :
         \/ task[x].st \in {"ended", "refused", "skipped"}
         \/ Waiting(x) /\ (task[x].r \in gone \/ (task[x].o >= 0 /\ dead[task[x].o] # "alive"))
         \/ Waiting(x) /\ task[x].far /\ task[x].due + FarUs > at
    /\ task' = [x \in DOMAIN task |-> IF Waiting(x) /\ ~task[x].far THEN [task[x] EXCEPT !.st = "skipped"] ELSE task[x]]
    /\ Tick /\ UNCHANGED <<kinds, gone, dead, mgr>>

\* A sequenced runner never has two tasks running.
Exclusive == \A x, y \in DOMAIN task :
    (x # y /\ task[x].st = "running" /\ task[y].st = "running" /\ task[x].r = task[y].r) => kinds[task[x].r] = "parallel"
NothingRunsStopped == mgr = "stopped" => \A x \in DOMAIN task : task[x].st # "running"
=============================================================================
