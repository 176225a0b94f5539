------------------------------- MODULE TaskMC -------------------------------
(* The algorithm of TaskManager and SequencedTaskRunner: worker threads which *)
(* poll a queue, a timer thread which moves delayed tasks to their runner, a  *)
(* runner which keeps at most one task in the queue, and stopping (clear a    *)
(* flag, wait for the threads) and starting again.  Every action is one       *)
(* critical section of the implementation.  Checked for refinement of the     *)
(* promises of Tasks.tla: order, exclusion, and that no task is lost.         *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Workers,     \* worker threads
          PerRunner,   \* tasks posted to each runner
          Runners,     \* sequenced runners
          Parallel,    \* parallel runners
          Delayed,     \* numbers of tasks which are posted with a delay
          Restarts,    \* how often the manager is stopped and started
          Requeue      \* FALSE: the worker drops a task taken while stopping (as the code once did)

All == Runners \cup Parallel
Tasks == All \X (1..PerRunner)

VARIABLES keep,      \* m_keep_running
          ctl,       \* the controlling thread: "up", "stopping", "down"
          left,      \* restarts left
          queue,     \* m_tasks
          delayed,   \* m_delayed_tasks
          pending,   \* runner -> m_pending_tasks
          busy,      \* runner -> m_has_running_task
          pc, cur,   \* of each worker
          timer,     \* "wait", "off"
          posted,    \* runner -> number of tasks posted so far
          queued,    \* runner -> tasks in the order they reached their runner
          ran        \* runner -> tasks in the order they were started
vars == <<keep, ctl, left, queue, delayed, pending, busy, pc, cur, timer, posted, queued, ran>>

None == <<>>
Init == /\ keep = TRUE /\ ctl = "up" /\ left = Restarts
        /\ queue = <<>> /\ delayed = {} /\ pending = [r \in All |-> <<>>] /\ busy = [r \in All |-> FALSE]
        /\ pc = [w \in Workers |-> "loop"] /\ cur = [w \in Workers |-> None] /\ timer = "wait"
        /\ posted = [r \in All |-> 0] /\ queued = [r \in All |-> <<>>] /\ ran = [r \in All |-> <<>>]

\* What post_task_internal does: effects on queue, pending, busy and queued
Give(t) ==
    LET r == t[1] IN
    /\ queued' = [queued EXCEPT ![r] = Append(@, t)]
    /\ IF r \in Parallel \/ ~busy[r]
       THEN queue' = Append(queue, t) /\ busy' = [busy EXCEPT ![r] = r \in Runners] /\ UNCHANGED pending
       ELSE pending' = [pending EXCEPT ![r] = Append(@, t)] /\ UNCHANGED <<queue, busy>>

Post(r) ==
    /\ posted[r] < PerRunner
    /\ posted' = [posted EXCEPT ![r] = @ + 1]
    /\ LET t == <<r, posted[r] + 1>> IN
       IF t[2] \in Delayed THEN delayed' = delayed \cup {t} /\ UNCHANGED <<queue, pending, busy, queued>>
       ELSE Give(t) /\ UNCHANGED delayed
    /\ UNCHANGED <<keep, ctl, left, pc, cur, timer, ran>>

TimerFires == /\ timer = "wait" /\ \E t \in delayed : delayed' = delayed \ {t} /\ Give(t)
              /\ UNCHANGED <<keep, ctl, left, pc, cur, timer, posted, ran>>
TimerEnds == timer = "wait" /\ ~keep /\ timer' = "off"
             /\ UNCHANGED <<keep, ctl, left, queue, delayed, pending, busy, pc, cur, posted, queued, ran>>

\* while (m_keep_running) pop
Pop(w) == /\ pc[w] = "loop" /\ keep /\ queue # <<>>
          /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
          /\ pc' = [pc EXCEPT ![w] = "popped"]
          /\ UNCHANGED <<keep, ctl, left, delayed, pending, busy, timer, posted, queued, ran>>
\* the flag is read, and the wait begins, before the manager is stopped; something may still be taken afterwards
LatePop(w) == /\ pc[w] = "loop" /\ ~keep /\ ctl = "stopping" /\ queue # <<>>
              /\ cur' = [cur EXCEPT ![w] = Head(queue)] /\ queue' = Tail(queue)
              /\ pc' = [pc EXCEPT ![w] = "popped"]
              /\ UNCHANGED <<keep, ctl, left, delayed, pending, busy, timer, posted, queued, ran>>
Leave(w) == /\ pc[w] = "loop" /\ ~keep /\ pc' = [pc EXCEPT ![w] = "off"]
            /\ UNCHANGED <<keep, ctl, left, queue, delayed, pending, busy, cur, timer, posted, queued, ran>>
Begin(w) == /\ pc[w] = "popped" /\ keep
            /\ ran' = [ran EXCEPT ![cur[w][1]] = Append(@, cur[w])]
            /\ pc' = [pc EXCEPT ![w] = "running"]
            /\ UNCHANGED <<keep, ctl, left, queue, delayed, pending, busy, cur, timer, posted, queued>>
GiveUp(w) == /\ pc[w] = "popped" /\ ~keep
             /\ queue' = IF Requeue THEN Append(queue, cur[w]) ELSE queue
             /\ cur' = [cur EXCEPT ![w] = None] /\ pc' = [pc EXCEPT ![w] = "off"]
             /\ UNCHANGED <<keep, ctl, left, delayed, pending, busy, timer, posted, queued, ran>>
\* task_complete
Finish(w) == /\ pc[w] = "running"
             /\ LET r == cur[w][1] IN
                IF r \in Parallel THEN UNCHANGED <<queue, pending, busy>>
                ELSE IF pending[r] = <<>> THEN busy' = [busy EXCEPT ![r] = FALSE] /\ UNCHANGED <<queue, pending>>
                ELSE /\ queue' = Append(queue, Head(pending[r])) /\ pending' = [pending EXCEPT ![r] = Tail(@)]
                     /\ UNCHANGED busy
             /\ cur' = [cur EXCEPT ![w] = None] /\ pc' = [pc EXCEPT ![w] = "loop"]
             /\ UNCHANGED <<keep, ctl, left, delayed, timer, posted, queued, ran>>

Stop == /\ ctl = "up" /\ left > 0 /\ ctl' = "stopping" /\ keep' = FALSE
        /\ UNCHANGED <<left, queue, delayed, pending, busy, pc, cur, timer, posted, queued, ran>>
Stopped == /\ ctl = "stopping" /\ timer = "off" /\ \A w \in Workers : pc[w] = "off"
           /\ ctl' = "down"
           /\ UNCHANGED <<keep, left, queue, delayed, pending, busy, pc, cur, timer, posted, queued, ran>>
Start == /\ ctl = "down" /\ ctl' = "up" /\ keep' = TRUE /\ left' = left - 1
         /\ pc' = [w \in Workers |-> "loop"] /\ timer' = "wait"
         /\ UNCHANGED <<queue, delayed, pending, busy, cur, posted, queued, ran>>

WorkerStep(w) == Pop(w) \/ LatePop(w) \/ Leave(w) \/ Begin(w) \/ GiveUp(w) \/ Finish(w)
Next == \/ \E r \in All : Post(r)
        \/ TimerFires \/ TimerEnds
        \/ \E w \in Workers : WorkerStep(w)
        \/ Stop \/ Stopped \/ Start
Fair == /\ \A r \in All : WF_vars(Post(r))
        /\ WF_vars(TimerFires) /\ WF_vars(TimerEnds)
        /\ \A w \in Workers : WF_vars(WorkerStep(w))
        /\ WF_vars(Stopped) /\ WF_vars(Start)
Spec == Init /\ [][Next]_vars /\ Fair

Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in 1..Len(a) : a[k] = b[k]
InOrder == \A r \in Runners : Prefix(ran[r], queued[r])
OneAtATime == \A r \in Runners : Cardinality({w \in Workers : pc[w] = "running" /\ cur[w][1] = r}) <= 1
Once == \A r \in All : \A i, j \in DOMAIN ran[r] : i # j => ran[r][i] # ran[r][j]
Barrier == ctl = "down" => \A w \in Workers : pc[w] # "running"
\* Every task is run, however the manager is stopped and started in between.
NothingLost == <>(\A r \in All : Len(ran[r]) = PerRunner)
=============================================================================
