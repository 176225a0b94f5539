----------------------------- MODULE RegistryMC -----------------------------
(* Threads create, look up and release loggers in every order; the user's own *)
(* count of references is kept beside the registry's.                         *)
EXTENDS Registry
CONSTANTS Threads, Names, MaxLoggers, MaxGets
VARIABLES held,   \* logger -> references in the hands of users
          made,   \* number of create calls
          gets    \* and of queries
mcvars == <<rvars, held, made, gets>>
MCInit == RInit /\ held = <<>> /\ made = 0 /\ gets = 0
Count(k) == IF k \in DOMAIN held THEN held[k] ELSE 0
Inside == Internal /\ UNCHANGED <<held, made, gets>>
Next ==
    \/ \E t \in Threads, n \in Names, good \in BOOLEAN :
          made < MaxLoggers /\ CreateCall(t, made + 1, n, good) /\ made' = made + 1 /\ UNCHANGED <<held, gets>>
    \/ \E t \in Threads, n \in Names : gets < MaxGets /\ GetCall(t, n) /\ gets' = gets + 1 /\ UNCHANGED <<held, made>>
    \/ \E t \in Threads : \E k \in DOMAIN held :
          held[k] > 0 /\ DropCall(t, k) /\ held' = [held EXCEPT ![k] = @ - 1] /\ UNCHANGED <<made, gets>>
    \/ Inside
    \/ \E t \in DOMAIN calls :
          \/ calls[t].op = "create" /\ CreateRet(t, IF calls[t].ok THEN calls[t].k ELSE 0)
             /\ held' = (IF calls[t].ok THEN With(held, calls[t].k, Count(calls[t].k) + 1) ELSE held)
          \/ calls[t].op = "get" /\ calls[t].k # 0 /\ GetRet(t, calls[t].k, calls[t].n) /\ held' = With(held, calls[t].k, Count(calls[t].k) + 1)
          \/ calls[t].op = "get" /\ calls[t].k = 0 /\ GetRet(t, 0, calls[t].n) /\ UNCHANGED held
          \/ calls[t].op = "drop" /\ DropRet(t) /\ UNCHANGED held
       /\ UNCHANGED <<made, gets>>
Spec == MCInit /\ [][Next]_mcvars /\ WF_mcvars(Inside)
\* A name which nobody uses is free as soon as no call is under way.
Free == calls = <<>> => \A n \in DOMAIN names : refs[names[n]] > 0
\* The registry counts exactly what users hold and what calls are about to hand out or give back.
Counted == calls = <<>> => \A k \in DOMAIN refs : refs[k] = Count(k)
\* A logger in the hands of a user is found by everybody who asks for its name meanwhile.
HeldIsFound == \A k \in DOMAIN held : held[k] > 0 => name[k] \in DOMAIN names /\ names[name[k]] = k
\* The answer to a query does not depend on calls which have not returned.
Answers == \A t \in Threads : (t \in DOMAIN calls) ~> (t \notin DOMAIN calls \/ calls[t].st = "done")
=============================================================================
