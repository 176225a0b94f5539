------------------------------ MODULE LoggerMC ------------------------------
(* Threads log to a synchronous or asynchronous logger; the sink may refuse.  *)
EXTENDS Logger
CONSTANTS Async, Records, Threads
VARIABLES out,    \* what the sink was given
          by,     \* thread -> record being logged, 0: none
          given   \* records logged, in order of their calls, per thread
mcvars == <<lvars, out, by, given>>
K == 1
MCInit == LInit /\ out = <<>> /\ by = [t \in Threads |-> 0] /\ given = 0
Next ==
    \/ K \notin DOMAIN lg /\ \E ok \in BOOLEAN : Create(K, Async, 10, ok, ok, 0, 0) /\ UNCHANGED <<out, by, given>>
    \/ K \in DOMAIN lg /\ \E t \in Threads : by[t] = 0 /\ given < Records /\ lg[K].st \in {"live", "failed"}
          /\ Log(given + 1, K, given % 3, 12 - given, 0) /\ by' = [by EXCEPT ![t] = given + 1] /\ given' = given + 1 /\ UNCHANGED out
    \/ K \in DOMAIN lg /\ \E t \in Threads : by[t] # 0 /\ Logged(by[t], 0) /\ by' = [by EXCEPT ![t] = 0] /\ UNCHANGED <<out, given>>
    \/ K \in DOMAIN lg /\ \E id \in DOMAIN rec :
          Sink(K, lg[K].next, rec[id].level, id, Smaller(rec[id].len, 10), TRUE, 0) /\ out' = Append(out, id) /\ UNCHANGED <<by, given>>
    \/ K \in DOMAIN lg /\ \E ok \in BOOLEAN : SinkDone(K, ok) /\ UNCHANGED <<out, by, given>>
    \/ K \in DOMAIN lg /\ lg[K].st = "live" /\ (\A t \in Threads : by[t] = 0) /\ Release(K) /\ UNCHANGED <<out, by, given>>
    \/ runs /\ ManagerStopped /\ UNCHANGED <<out, by, given>>
Spec == MCInit /\ [][Next]_mcvars
Position(id) == CHOOSE k \in DOMAIN out : out[k] = id
\* each at most once, in the order in which they were logged, and numbered without gaps
Once == \A j, k \in DOMAIN out : j # k => out[j] # out[k]
InOrder == \A x, y \in DOMAIN rec : rec[x].st = "written" /\ rec[y].st = "written" /\ rec[x].qb < rec[y].qa => Position(x) < Position(y)
Numbered == K \in DOMAIN lg => lg[K].next = Len(out)
\* a record is never passed over, as long as the sink accepts
NoGaps == \A y \in DOMAIN rec : rec[y].st = "written" => \A x \in DOMAIN rec : rec[x].qb < rec[y].qa => rec[x].st = "written"
\* a synchronous logger is done when its call returns
Prompt == ~Async => \A x \in DOMAIN rec : rec[x].qb # Never => rec[x].st \in {"written", "discarded"}
\* nothing is stuck: what waits can be passed on
NotStuck == K \in DOMAIN lg /\ lg[K].st = "live" /\ writing[K] = -1 /\ runs /\ (\E x \in DOMAIN rec : rec[x].st = "waiting") =>
              \E id \in DOMAIN rec : rec[id].st = "waiting" /\ \A y \in DOMAIN rec : rec[y].qb < rec[id].qa => rec[y].st # "waiting"
=============================================================================
