------------------------------- MODULE Logger -------------------------------
(* A logger passes each record to its sink, one at a time, in the order in    *)
(* which they were logged, numbered from 0, until the sink refuses one: from  *)
(* then on everything is discarded.  An asynchronous logger does so later, on *)
(* its sequenced task runner; a synchronous one before the call returns.      *)
(* [qa, qb] is the interval of the call which logged a record.                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES now,      \* index of the current event
          lg,       \* logger -> [async, max, ca, cb (creation), st, next]
          rec,      \* record -> [k, level, len, qa, qb, ta, tb, st]
          writing,  \* logger -> record passed to the sink at the moment, or -1
          runs      \* the task manager runs
lvars == <<now, lg, rec, writing, runs>>

Never == 1000000000
LInit == now = 0 /\ lg = <<>> /\ rec = <<>> /\ writing = <<>> /\ runs = TRUE
Tick == now' = now + 1
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

\* `good`: whether the sink could be initialised; only then there is a logger
Create(k, async, max, good, ok, ta, tb) ==
    /\ k \notin DOMAIN lg
    /\ ok = good
    /\ lg' = With(lg, k, [async |-> async, max |-> max, ca |-> ta, cb |-> tb, st |-> IF ok THEN "live" ELSE "gone", next |-> 0])
    /\ writing' = With(writing, k, -1)
    /\ Tick /\ UNCHANGED <<rec, runs>>

Log(id, k, level, len, t) ==
    /\ id \notin DOMAIN rec
    /\ rec' = With(rec, id, [k |-> k, level |-> level, len |-> len, qa |-> now, qb |-> Never, ta |-> t, tb |-> Never,
                             st |-> "waiting"])
    /\ Tick /\ UNCHANGED <<lg, writing, runs>>

\* A synchronous logger has passed the record on when the call returns.
Logged(id, t) ==
    /\ LET k == rec[id].k IN
       /\ rec' = [rec EXCEPT ![id].qb = now, ![id].tb = t,
                             ![id].st = IF @ = "waiting" /\ lg[k].st \in {"failed", "failing"} THEN "discarded" ELSE @]
       /\ ~lg[k].async => rec[id].st = "written" \/ lg[k].st = "failed"
    /\ Tick /\ UNCHANGED <<lg, writing, runs>>

Smaller(a, b) == IF a < b THEN a ELSE b

\* The sink is given record `id`.
Sink(k, idx, level, id, len, same, t) ==
    /\ id \in DOMAIN rec
    /\ LET r == rec[id] IN
       /\ r.k = k /\ r.st = "waiting"
       /\ lg[k].st \in {"live", "released"}
       /\ writing[k] = -1
       /\ lg[k].async => runs
       /\ idx = lg[k].next
       /\ level = r.level
       /\ len = Smaller(r.len, lg[k].max) /\ same
       \* the time of the call, in microseconds since the logger was made
       /\ t + lg[k].cb >= r.ta - 1
       /\ r.tb # Never => t + lg[k].ca <= r.tb + 1
       \* nothing which was certainly logged before is still waiting
       /\ \A y \in DOMAIN rec : rec[y].k = k /\ rec[y].qb < r.qa => rec[y].st # "waiting"
    /\ writing' = [writing EXCEPT ![k] = id]
    /\ lg' = [lg EXCEPT ![k].next = @ + 1]
    /\ rec' = [rec EXCEPT ![id].st = "written"]
    /\ Tick /\ UNCHANGED runs

SinkDone(k, accepted) ==
    /\ writing[k] # -1
    /\ writing' = [writing EXCEPT ![k] = -1]
    /\ lg' = [lg EXCEPT ![k].st = IF accepted THEN @ ELSE "failed"]
    /\ Tick /\ UNCHANGED <<rec, runs>>

\* The limit is changed while nothing is logged.
SetMax(k, max) == lg' = [lg EXCEPT ![k].max = max] /\ Tick /\ UNCHANGED <<rec, writing, runs>>

\* The user's reference is dropped; queued records keep the logger only while one of them is handled.
Release(k) == lg' = [lg EXCEPT ![k].st = IF @ = "live" THEN "released" ELSE @] /\ Tick /\ UNCHANGED <<rec, writing, runs>>
SinkGone(k) == /\ k \in DOMAIN lg => writing[k] = -1
               /\ lg' = [x \in DOMAIN lg |-> IF x = k THEN [lg[x] EXCEPT !.st = "gone"] ELSE lg[x]] /\ Tick /\ UNCHANGED <<rec, writing, runs>>

ManagerStopped == /\ \A k \in DOMAIN writing : writing[k] = -1
                  /\ runs' = FALSE /\ Tick /\ UNCHANGED <<lg, rec, writing>>

\* Left alone for long enough.
Quiet == /\ runs
         /\ \A x \in DOMAIN rec : rec[x].st = "waiting" => lg[rec[x].k].st # "live"
         /\ Tick /\ UNCHANGED <<lg, rec, writing, runs>>
=============================================================================
