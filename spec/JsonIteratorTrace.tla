------------------------- MODULE JsonIteratorTrace --------------------------
EXTENDS TraceKit, JsonIterator
TraceInit == TraceKitInit /\ ItInit
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("direction") /\ Direction(Cur.rev)
    \/ Step("load") /\ Load(Cur.d, Cur.kind, Cur.el)
    \/ Step("clear") /\ Clear(Cur.s)
    \/ Step("copy") /\ CopyIt(Cur.s, Cur.t)
    \/ Step("make") /\ Make(Cur.s, Cur.d, Cur.first, Cur.err)
    \/ Step("deref") /\ Deref(Cur.s, Cur.err, Cur.v)
    \/ Step("key") /\ Key(Cur.s, Cur.err, Cur.k)
    \/ Step("index") /\ Index(Cur.s, Cur.n, Cur.err, Cur.v)
    \/ Step("write") /\ Write(Cur.s, Cur.err, Cur.v)
    \/ Step("walk") /\ Walk(Cur.s, Cur.n, Cur.err)
    \/ Step("walk_after") /\ WalkAfter(Cur.s, Cur.n, Cur.t, Cur.err)
    \/ Step("jump") /\ Jump(Cur.s, Cur.n, Cur.t, Cur.err)
    \/ Step("same") /\ Same(Cur.s, Cur.t, Cur.err, Cur.eq, Cur.ne)
    \/ Step("order") /\ Order(Cur.s, Cur.t, Cur.err, Cur.lt, Cur.le, Cur.gt, Cur.ge)
    \/ Step("difference") /\ Difference(Cur.s, Cur.t, Cur.err, Cur.n)
    \/ Step("docs") /\ UNCHANGED ivars /\ \A d \in Docs : doc[d].kind # "x" => Cur.el[d] = doc[d].el
    \/ ((Accept \/ Stay) /\ UNCHANGED ivars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, ivars>>
=============================================================================
