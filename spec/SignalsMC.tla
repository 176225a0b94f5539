------------------------------ MODULE SignalsMC ------------------------------
(* Handlers with all short scripts, raising and setting in any order.          *)
EXTENDS Signals
CONSTANTS Signs, Handlers, MaxScript, MaxOps, MaxArrivals
VARIABLES ops, arrivals
vars == <<svars, ops, arrivals>>

Whats == ({"set"} \X (0..Handlers)) \cup ({"raise"} \X Signs)
ScriptSet == UNION {[1..n -> Whats] : n \in 0..MaxScript}
Init == SInit /\ ops = 0 /\ arrivals = 0
Main == stack = <<>> => ops < MaxOps
Count == ops' = (IF stack = <<>> THEN ops + 1 ELSE ops)
Act == \/ script = <<>> /\ (\E sc \in [1..Handlers -> ScriptSet] : Setup(sc)) /\ UNCHANGED <<ops, arrivals>>
       \/ script # <<>> /\ Main /\ ((\E h \in 0..Handlers : Set(h)) \/ (\E s \in Signs : Raise(s))) /\ Count /\ UNCHANGED arrivals
       \/ IsSet /\ UNCHANGED <<ops, arrivals>>
       \/ script # <<>> /\ arrivals < MaxArrivals /\ (\E s \in Signs : Arrive(s)) /\ arrivals' = arrivals + 1 /\ UNCHANGED ops
       \/ ((\E h \in 1..Handlers, s \in Signs : Enter(h, s)) \/ (\E h \in 1..Handlers : Return(h)) \/ Silent)
          /\ UNCHANGED <<ops, arrivals>>
Spec == Init /\ [][Act]_vars

\* exactly the signals which are being handled are held back, each handled once at a time, and only the caught ones
MaskIsStack == /\ mask = {stack[i].sig : i \in 1..Len(stack)} /\ mask \subseteq Caught
               /\ Cardinality(mask) = Len(stack)
\* only a handler which was set is called
Called == \A i \in 1..Len(stack) : stack[i].h \in 1..Handlers
\* nothing remains undone: when nothing more can happen, each signal was handled or ended the process
NothingOwed == (~ENABLED Act) => (died # 0 \/ (stack = <<>> /\ pend = {} /\ coming = Nothing))
\* the process ends by a signal only if that one is not caught, or no handler is in charge
EndsRightly == [][died' # died => (died' \notin Caught \/ handler = None \/ coming = None)]_vars
\* a signal which waits is given to a handler or ends the process
NotLost == [][\A s \in pend : s \notin pend' =>
                 (died' = s \/ (Len(stack') = Len(stack) + 1 /\ stack'[Len(stack')].sig = s))]_vars
\* after "none" was set, and until another is, handlers are called only for what was delivered before
NoneMeansNone == [][(handler = None /\ coming \in {None, Nothing} /\ Len(stack') > Len(stack)) => FALSE]_vars
=============================================================================
