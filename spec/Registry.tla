------------------------------ MODULE Registry ------------------------------
(* The registry of loggers.  Creating, looking up and releasing loggers are   *)
(* calls which take effect at some moment between their start and their end.  *)
(* A name belongs to at most one logger; a logger is found by its name for as *)
(* long as someone holds it; the name is free again some time after the last  *)
(* reference is released, and at the latest when that release returns.        *)
(* Registration and initialisation of the sink are two steps: a logger can be *)
(* found in between, and one whose sink fails is withdrawn.                   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES names,    \* name -> logger
          refs,     \* logger -> number of references
          calls,    \* thread -> the call in progress
          ptr,      \* logger -> address shown to users (0: not known yet)
          name,     \* logger -> its name
          def       \* the default logger
rvars == <<names, refs, calls, ptr, name, def>>

None == 0
RInit == names = <<>> /\ refs = <<>> /\ calls = <<>> /\ ptr = <<>> /\ name = <<>> /\ def = None
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Idle(t) == t \notin DOMAIN calls
Call(t, c) == Idle(t) /\ calls' = With(calls, t, c)
Done(t) == calls' = Without(calls, t)

\* create(name): logger k would be made; `good`: its sink can be initialised
CreateCall(t, k, n, good) == Call(t, [op |-> "create", st |-> "called", k |-> k, n |-> n, good |-> good, ok |-> FALSE, u |-> {}])
                             /\ UNCHANGED <<names, refs, ptr, name, def>>
Register(t) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "create" /\ calls[t].st = "called"
    /\ LET c == calls[t]
           free == c.n \notin DOMAIN names
       IN /\ names' = IF free THEN With(names, c.n, c.k) ELSE names
          /\ refs' = IF free THEN With(refs, c.k, 1) ELSE refs
          /\ ptr' = IF free THEN With(ptr, c.k, 0) ELSE ptr
          /\ name' = IF free THEN With(name, c.k, c.n) ELSE name
          /\ calls' = [calls EXCEPT ![t].st = IF ~free THEN "dying" ELSE IF c.good THEN "done" ELSE "failed",
                                    ![t].ok = free /\ c.good]
    /\ UNCHANGED def
\* the reference of the failed call goes away
Withdraw(t) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "create" /\ calls[t].st = "failed"
    /\ LET k == calls[t].k IN
       /\ refs' = [refs EXCEPT ![k] = @ - 1]
       /\ calls' = [calls EXCEPT ![t].st = IF refs[k] = 1 THEN "dying" ELSE "done"]
    /\ UNCHANGED <<names, ptr, name, def>>

GetCall(t, n) == Call(t, [op |-> "get", st |-> "called", k |-> 0, n |-> n]) /\ UNCHANGED <<names, refs, ptr, name, def>>
Look(t) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "get" /\ calls[t].st = "called"
    /\ LET n == calls[t].n
           found == n \in DOMAIN names /\ refs[names[n]] > 0
       IN /\ calls' = [calls EXCEPT ![t].st = "done", ![t].k = IF found THEN names[n] ELSE 0]
          /\ refs' = IF found THEN [refs EXCEPT ![names[n]] = @ + 1] ELSE refs
    /\ UNCHANGED <<names, ptr, name, def>>

\* one reference to k is released
DropCall(t, k) == Call(t, [op |-> "drop", st |-> "called", k |-> k]) /\ UNCHANGED <<names, refs, ptr, name, def>>
Release(t) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "drop" /\ calls[t].st = "called"
    /\ LET k == calls[t].k IN
       /\ refs' = [refs EXCEPT ![k] = @ - 1]
       /\ calls' = [calls EXCEPT ![t].st = IF refs[k] = 1 THEN "dying" ELSE "done"]
    /\ UNCHANGED <<names, ptr, name, def>>
\* the logger is destroyed by the thread which released it last; a name is only freed if nobody holds its logger
Purge(n) == IF n \in DOMAIN names /\ refs[names[n]] = 0 THEN Without(names, n) ELSE names
Unregister(t) ==
    /\ t \in DOMAIN calls /\ calls[t].st = "dying"
    /\ names' = Purge(IF calls[t].op = "create" THEN calls[t].n ELSE name[calls[t].k])
    /\ calls' = [calls EXCEPT ![t].st = "done"]
    /\ UNCHANGED <<refs, ptr, name, def>>

Internal == \E t \in DOMAIN calls : Register(t) \/ Withdraw(t) \/ Look(t) \/ Release(t) \/ Unregister(t)

\* The calls return; p is the address of the logger returned, 0 if none.
Known(k, p) == /\ p # 0 /\ ptr[k] \in {0, p}
               /\ \A j \in DOMAIN ptr : j # k => ptr[j] # p
               /\ ptr' = [ptr EXCEPT ![k] = p]
CreateRet(t, p) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "create" /\ calls[t].st = "done"
    /\ IF calls[t].ok THEN Known(calls[t].k, p) ELSE p = 0 /\ UNCHANGED ptr
    /\ Done(t) /\ UNCHANGED <<names, refs, name, def>>
GetRet(t, p, n) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "get" /\ calls[t].st = "done"
    /\ LET k == calls[t].k IN
       IF k # 0 THEN Known(k, p) /\ name[k] = n ELSE p = 0 /\ UNCHANGED ptr
    /\ Done(t) /\ UNCHANGED <<names, refs, name, def>>
DropRet(t) == t \in DOMAIN calls /\ calls[t].op = "drop" /\ calls[t].st = "done" /\ Done(t)
              /\ UNCHANGED <<names, refs, ptr, name, def>>

\* The default logger (these calls are made by one thread only): it is held by the registry.
SetDefault(k) == def' = k /\ refs' = [j \in DOMAIN refs |-> refs[j] + (IF j = k THEN 1 ELSE 0) - (IF j = def THEN 1 ELSE 0)]
                 /\ names' = (IF def # None /\ def # k /\ refs[def] = 1 THEN Without(names, name[def]) ELSE names)
                 /\ UNCHANGED <<calls, ptr, name>>
\* k = 0: the initial default logger
GetDefault(k) == k = def /\ UNCHANGED rvars

\* Each name is held by one logger, and a logger which is held can be found.
Unique == \A n, m \in DOMAIN names : names[n] = names[m] => n = m
Findable == \A k \in DOMAIN refs : refs[k] > 0 => /\ name[k] \in DOMAIN names /\ names[name[k]] = k
=============================================================================
