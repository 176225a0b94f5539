--------------------------- MODULE JsonOrderTrace ---------------------------
EXTENDS TraceKit, JsonOrder
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ /\ Step("compare")
       /\ LET lt == Lt(Cur.a, Cur.b) gt == Lt(Cur.b, Cur.a) eq == Eq(Cur.a, Cur.b) IN
          /\ Cur.lt = lt /\ Cur.gt = gt /\ Cur.eq = eq /\ Cur.ne = ~eq
          /\ Cur.le = (lt \/ eq) /\ Cur.ge = (gt \/ eq)
          /\ eq => Cur.hash
    \/ Step("sort") /\ Rearranged(Cur.vs, Cur.sorted) /\ Ordered(Cur.sorted)
    \/ Step("sets") /\ Cur.ordered = Distinct(Cur.vs) /\ Cur.hashed = Distinct(Cur.vs)
    \/ Step("find") /\ LET there == \E k \in 1..Len(Cur.vs) : Eq(Cur.vs[k], Cur.v) IN Cur.ordered = there /\ Cur.hashed = there
    \/ (Accept \/ Stay)
TraceSpec == TraceKitInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
