----------------------------- MODULE Container -----------------------------
(* A queue or stack shared by several threads.  Every operation takes effect *)
(* atomically at some moment between its call and its return; a pop waits    *)
(* while the container is empty, a timed pop may give up, but only when the  *)
(* container is empty and its time has passed.                               *)
EXTENDS Naturals, Integers, Sequences

VARIABLES kind, items, pend      \* pend: thread -> pending call
cvars == <<kind, items, pend>>

Idle == [st |-> "idle", f |-> "none", x |-> 0, r |-> 0]
CInit == kind = "none" /\ items = <<>> /\ pend = <<>>
New(k, n) == kind' = k /\ items' = <<>> /\ pend' = [t \in 0..(n - 1) |-> Idle]
Call(t, f, x) == /\ pend[t].st = "idle"
                 /\ pend' = [pend EXCEPT ![t] = [st |-> "called", f |-> f, x |-> x, r |-> 0]]
                 /\ UNCHANGED <<kind, items>>
Out == IF kind = "queue" THEN Head(items) ELSE items[Len(items)]
Rest == IF kind = "queue" THEN Tail(items) ELSE SubSeq(items, 1, Len(items) - 1)
GaveUp == -1
\* The call of thread t takes effect.
TakeEffect(t) ==
    /\ pend[t].st = "called"
    /\ UNCHANGED kind
    /\ CASE pend[t].f = "push" -> items' = Append(items, pend[t].x) /\ pend' = [pend EXCEPT ![t].st = "done", ![t].r = 0]
         [] pend[t].f \in {"pop", "timed"} /\ items # <<>> ->
                items' = Rest /\ pend' = [pend EXCEPT ![t].st = "done", ![t].r = Out]
         [] pend[t].f = "timed" /\ items = <<>> -> UNCHANGED items /\ pend' = [pend EXCEPT ![t].st = "done", ![t].r = GaveUp]
         [] pend[t].f = "size" -> UNCHANGED items /\ pend' = [pend EXCEPT ![t].st = "done", ![t].r = Len(items)]
         [] pend[t].f = "empty" -> UNCHANGED items /\ pend' = [pend EXCEPT ![t].st = "done", ![t].r = IF items = <<>> THEN 1 ELSE 0]
         [] OTHER -> FALSE
Return(t, r) == /\ pend[t].st = "done" /\ pend[t].r = r
                /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<kind, items>>
=============================================================================
