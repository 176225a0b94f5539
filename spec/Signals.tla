------------------------------ MODULE Signals ------------------------------
(* fly::system: one handler for all of the signals which end a program, the   *)
(* text of an error code, and the local time.                                 *)
(*                                                                             *)
(* A raised signal is delivered at once, unless the same signal is being      *)
(* handled, in which case it waits for that to end.   What handles it is the   *)
(* handler which was set last, or else the default action: the process ends.  *)
(* Handlers may do anything in turn: set another handler (or none), or raise  *)
(* signals; script[h] says what handler h does.  While a handler is being      *)
(* replaced, either the handler before or the one after is in charge, and      *)
(* never anything else.                                                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Calendar

CONSTANTS Caught,     \* the signals which are given to the handler
          MaxScripts  \* handlers follow their script only this often
VARIABLES handler,  \* the handler in charge, or None
          coming,   \* the handler which is being set, or Nothing
          script, mask, pend, stack, calls, died
svars == <<handler, coming, script, mask, pend, stack, calls, died>>

None == 0
Nothing == 0 - 1
SInit == /\ handler = None /\ coming = Nothing /\ script = <<>> /\ mask = {} /\ pend = {} /\ stack = <<>>
         /\ calls = 0 /\ died = 0

Alive == died = 0
Top == stack[Len(stack)]
Deliverable == pend \ mask
\* the code which runs: the main program, or the innermost handler once it was entered
Running == Alive /\ Deliverable = {} /\ (IF stack = <<>> THEN TRUE ELSE Top.entered /\ ~Top.left)
\* a handler which runs while another one is being set does not follow its script
Setting == coming # Nothing

\* scripts[h] is what handler h does
Setup(scripts) == /\ script = <<>> /\ script' = scripts
                  /\ UNCHANGED <<handler, coming, mask, pend, stack, calls, died>>

\* the next thing the innermost handler does, by its script; the main program may do anything
Next(what) == IF stack = <<>> THEN TRUE
              ELSE Top.obeys /\ Top.done < Len(script[Top.h]) /\ script[Top.h][Top.done + 1] = what
Done == IF stack = <<>> THEN stack ELSE [stack EXCEPT ![Len(stack)].done = @ + 1]

Set(h) ==
    /\ Running /\ ~Setting /\ Next(<<"set", h>>)
    /\ coming' = h /\ stack' = Done
    /\ UNCHANGED <<handler, script, mask, pend, calls, died>>
\* The call which sets it returns.
IsSet ==
    /\ Running /\ Setting
    /\ handler' = coming /\ coming' = Nothing
    /\ UNCHANGED <<script, mask, pend, stack, calls, died>>
Raise(s) ==
    /\ Running /\ ~Setting /\ Next(<<"raise", s>>)
    /\ pend' = pend \cup {s} /\ stack' = Done
    /\ UNCHANGED <<handler, coming, script, mask, calls, died>>
\* A signal arrives while a handler is dropped (which happens when the one which is set replaces it, or later).
Arrive(s) ==
    /\ Alive /\ Deliverable = {} /\ (IF stack = <<>> THEN TRUE ELSE Top.entered)
    /\ pend' = pend \cup {s}
    /\ UNCHANGED <<handler, coming, script, mask, stack, calls, died>>

InCharge == {handler} \cup (IF Setting THEN {coming} ELSE {})
\* Delivery: the action is chosen now.
Deliver(s) ==
    /\ Alive /\ s \in Deliverable
    /\ pend' = pend \ {s}
    /\ \E h \in InCharge :
           IF s \in Caught /\ h # None
           THEN /\ stack' = Append(stack, [h |-> h, sig |-> s, entered |-> FALSE, left |-> FALSE, obeys |-> FALSE, done |-> 0])
                /\ mask' = mask \cup {s} /\ UNCHANGED died
           ELSE died' = s /\ UNCHANGED <<stack, mask>>
    /\ UNCHANGED <<handler, coming, script, calls>>
\* The handler is called, with the signal. It is the one which is set.
Enter(h, s) ==
    /\ Alive /\ stack # <<>> /\ ~Top.entered /\ Top.sig = s /\ h # None /\ h \in InCharge
    /\ calls' = calls + 1
    /\ stack' = [stack EXCEPT ![Len(stack)] = [@ EXCEPT !.h = h, !.entered = TRUE, !.obeys = calls < MaxScripts /\ ~Setting]]
    /\ UNCHANGED <<handler, coming, script, mask, pend, died>>
\* It returns, and has done all that its script says; it may be dropped then.
Return(h) ==
    /\ Running /\ stack # <<>> /\ Top.h = h /\ (IF Top.obeys THEN Top.done = Len(script[Top.h]) ELSE TRUE)
    /\ stack' = [stack EXCEPT ![Len(stack)].left = TRUE]
    /\ UNCHANGED <<handler, coming, script, mask, pend, calls, died>>
Leave ==
    /\ Alive /\ Deliverable = {} /\ stack # <<>> /\ Top.left
    /\ mask' = mask \ {Top.sig}
    /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
    /\ UNCHANGED <<handler, coming, script, pend, calls, died>>
Silent == Leave \/ \E s \in Deliverable : Deliver(s)

\* the process ended by signal s
Died(s) == died = s /\ UNCHANGED svars
\* the main program ended
Ended == Running /\ ~Setting /\ stack = <<>> /\ UNCHANGED svars

-----------------------------------------------------------------------------
ErrorText(code, message) == <<40>> \o Decimal(code) \o <<41, 32>> \o message
Error(code, message, text) == text = ErrorText(code, message) /\ UNCHANGED svars
Time(days, seconds, offset, text) == text = TimeText(days, seconds, offset) /\ UNCHANGED svars
=============================================================================
