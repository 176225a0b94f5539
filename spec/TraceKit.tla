----------------------------- MODULE TraceKit -----------------------------
(* Common part of every trace specification.  The file named by TRACE_FILE  *)
(* holds one recorded trace per line: [id |-> n, ev |-> <<event, ...>>].    *)
(* `tid` selects a trace, `l` is the next event to explain.  A trace is     *)
(* accepted when some behaviour of the component's specification consumes   *)
(* all of its events; acceptance is reported by printing <<"ACC", id>>.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, l

TraceKitInit == tid \in 1..Len(Traces) /\ l = 1

Events == Traces[tid].ev
Cur == Events[l]
More == l <= Len(Events)
IsOp(name) == More /\ Cur.op = name
Consume == l' = l + 1 /\ UNCHANGED tid

\* All events are explained: report it, once per distinct final state.
Accept == /\ l = Len(Events) + 1
          /\ PrintT(<<"ACC", Traces[tid].id>>)
          /\ l' = l + 1
          /\ UNCHANGED tid
\* so that CHECK_DEADLOCK TRUE pinpoints rejections only
Stay == l = Len(Events) + 2 /\ UNCHANGED <<tid, l>>

\* How far a rejected trace can be explained (used with one worker, when reporting).
ASSUME TLCSet(1, 0)
Track == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE
Report == PrintT(<<"DEEPEST", TLCGet(1)>>)
===========================================================================
