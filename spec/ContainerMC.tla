---------------------------- MODULE ContainerMC ----------------------------
(* The algorithm: a mutex, a condition variable signalled once per push, and  *)
(* waiters which re-check under the mutex (spurious wake-ups included).  It   *)
(* refines the atomic container: nothing is lost, duplicated or reordered,    *)
(* and nobody sleeps for ever while items are available.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Producers, Consumers, TimedConsumers, PerProducer, PerConsumer
Threads == Producers \cup Consumers \cup TimedConsumers
VARIABLES owner, q, pc, left, sleeping, got, sent
vars == <<owner, q, pc, left, sleeping, got, sent>>
None == "none"
Init == /\ owner = None /\ q = <<>> /\ sleeping = {} /\ got = <<>> /\ sent = <<>>
        /\ pc = [t \in Threads |-> "start"]
        /\ left = [t \in Threads |-> IF t \in Producers THEN PerProducer ELSE PerConsumer]
Lock(t) == /\ pc[t] = "start" /\ left[t] > 0 /\ owner = None
           /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "locked"] /\ UNCHANGED <<q, left, sleeping, got, sent>>
Push(t) == /\ t \in Producers /\ pc[t] = "locked"
           /\ q' = Append(q, <<t, left[t]>>) /\ sent' = Append(sent, <<t, left[t]>>)
           /\ owner' = None /\ pc' = [pc EXCEPT ![t] = "notify"] /\ UNCHANGED <<left, sleeping, got>>
Notify(t) == /\ pc[t] = "notify"
             /\ pc' = [pc EXCEPT ![t] = "start"] /\ left' = [left EXCEPT ![t] = @ - 1]
             /\ IF sleeping = {} THEN UNCHANGED sleeping ELSE \E s \in sleeping : sleeping' = sleeping \ {s}
             /\ UNCHANGED <<owner, q, got, sent>>
Pop(t) == /\ t \notin Producers /\ pc[t] = "locked" /\ q # <<>>
          /\ got' = Append(got, Head(q)) /\ q' = Tail(q) /\ owner' = None
          /\ pc' = [pc EXCEPT ![t] = "start"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<sleeping, sent>>
Wait(t) == /\ t \notin Producers /\ pc[t] = "locked" /\ q = <<>>
           /\ owner' = None /\ sleeping' = sleeping \cup {t} /\ pc' = [pc EXCEPT ![t] = "waiting"]
           /\ UNCHANGED <<q, left, got, sent>>
\* woken by a notification: re-acquire and re-check
Rewait(t) == /\ pc[t] = "waiting" /\ t \notin sleeping /\ owner = None
             /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "locked"] /\ UNCHANGED <<q, left, sleeping, got, sent>>
Expire(t) == /\ t \in TimedConsumers /\ pc[t] = "waiting" /\ t \in sleeping
             /\ sleeping' = sleeping \ {t} /\ pc' = [pc EXCEPT ![t] = "expired"] /\ UNCHANGED <<owner, q, left, got, sent>>
GiveUp(t) == /\ pc[t] = "expired" /\ owner = None /\ q = <<>>
             /\ pc' = [pc EXCEPT ![t] = "start"] /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<owner, q, sleeping, got, sent>>
LatePop(t) == /\ pc[t] = "expired" /\ owner = None /\ q # <<>>
              /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "locked"] /\ UNCHANGED <<q, left, sleeping, got, sent>>
Next == \E t \in Threads : Lock(t) \/ Push(t) \/ Notify(t) \/ Pop(t) \/ Wait(t) \/ Rewait(t) \/ Expire(t) \/ GiveUp(t) \/ LatePop(t)
Spec == Init /\ [][Next]_vars
FIFO == sent = got \o q
\* When nothing can move any more, nobody waits although an item is there.
NoLostWakeup == ~ENABLED Next => \A t \in Threads : pc[t] = "waiting" => q = <<>>
=============================================================================
