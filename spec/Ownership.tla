------------------------------ MODULE Ownership ------------------------------
(* Socket objects own handles: each open handle belongs to exactly one        *)
(* object, moves pass it on together with its mode and state, and it is       *)
(* closed when its object is closed, destroyed, assigned to, or fails.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES kind, obj   \* slot -> none or [h: handle or 0, async, flag: connected 1, connecting 2, listening 1]
ovars == <<kind, obj>>
Slots == {0, 1, 2}
Gone == [h |-> -1, async |-> FALSE, flag |-> 0]
OwnInit == kind = "none" /\ obj = [k \in Slots |-> Gone]
Is(k) == obj[k].h >= 0
Handles == {obj[k].h : k \in Slots} \ {0, -1}
Kind(x) == kind' = x /\ UNCHANGED obj
Create(k, h, async) == /\ ~Is(k) /\ h > 0 /\ h \notin Handles
                       /\ obj' = [obj EXCEPT ![k] = [h |-> h, async |-> async, flag |-> 0]] /\ UNCHANGED kind
Left(o) == [o EXCEPT !.h = 0, !.flag = 0]
Move(k, j) == /\ Is(k) /\ ~Is(j) /\ obj' = [obj EXCEPT ![j] = obj[k], ![k] = Left(@)] /\ UNCHANGED kind
Assign(k, j) == /\ Is(k) /\ Is(j)
                /\ obj' = (IF j = k THEN obj ELSE [obj EXCEPT ![j] = obj[k], ![k] = Left(@)]) /\ UNCHANGED kind
\* the state of a closed socket is not looked at
Shut(o) == [o EXCEPT !.h = 0]
Close(k) == obj' = [obj EXCEPT ![k] = Shut(@)] /\ UNCHANGED kind
Destroy(k) == obj' = [obj EXCEPT ![k] = Gone] /\ UNCHANGED kind
Mode(k, async, ok) == /\ ok = (obj[k].h > 0)
                      /\ obj' = (IF ok THEN [obj EXCEPT ![k].async = async] ELSE obj) /\ UNCHANGED kind
Listen(k, ok) == ok = (obj[k].h > 0) /\ obj' = [obj EXCEPT ![k].flag = IF ok THEN 1 ELSE 0] /\ UNCHANGED kind
AcceptOne(k, ok) == /\ obj[k].h > 0 /\ ok = ~obj[k].async
                 /\ obj' = (IF ok THEN obj ELSE [obj EXCEPT ![k] = Shut(@)]) /\ UNCHANGED kind
\* connecting; a failure closes the socket
Connect(k, reach, result) ==
    /\ result = 1 => obj[k].h > 0 /\ reach
    /\ result = 2 => obj[k].h > 0 /\ obj[k].async
    /\ result = 0 => obj[k].h = 0 \/ ~reach
    /\ obj' = [obj EXCEPT ![k] = [(IF result = 0 THEN Shut(@) ELSE @) EXCEPT !.flag = result]]
    /\ UNCHANGED kind
Send(k, n) == /\ n = (IF obj[k].h > 0 THEN 1 ELSE 0)
              /\ UNCHANGED ovars
\* What can be seen.
State(slots, open) ==
    /\ \A k \in Slots : LET s == slots[k + 1] IN
         /\ (s.st = "some") = Is(k)
         /\ s.st = "some" => /\ s.h = obj[k].h /\ s.async = obj[k].async
                             /\ s.h > 0 => s.blocking = ~obj[k].async /\ s.flag = obj[k].flag
    /\ open = Cardinality(Handles)
    /\ UNCHANGED ovars
OneOwner == \A j, k \in Slots : j # k /\ obj[j].h > 0 => obj[j].h # obj[k].h
=============================================================================
