--------------------------- MODULE JsonTreeTrace ----------------------------
EXTENDS TraceKit, JsonTree
TraceInit == TraceKitInit /\ JInit
Step(nm) == IsOp(nm) /\ Consume
After == j' = Cur.j /\ o' = Cur.o
TraceNext ==
    \/ Step("set") /\ Set(Cur.j, Cur.o)
    \/ Step("copy") /\ Copy /\ After
    \/ Step("move") /\ Move /\ After
    \/ Step("swap") /\ Swap /\ After
    \/ Step("swap_typed") /\ (IF o[1] = j[1] /\ j[1] \in {"s", "a", "o"} THEN ~Cur.threw /\ Swap ELSE Throws(Cur.threw)) /\ After
    \/ Step("swap_numbers") /\ SwapNumbers(Cur.tag, Cur.v, Cur.threw, Cur.w) /\ After
    \/ Step("take") /\ TakeElement(Cur.threw, Cur.i) /\ After
    \/ Step("at_key") /\ AtKey(Cur.key, Cur.threw, Cur.v) /\ After
    \/ Step("at_index") /\ AtIndex(Cur.i, Cur.threw, Cur.v) /\ After
    \/ Step("front") /\ FirstOf(Cur.threw, Cur.v) /\ After
    \/ Step("back") /\ LastOf(Cur.threw, Cur.v) /\ After
    \/ Step("put_key") /\ PutKey(Cur.key, Cur.v, Cur.threw, Cur.old) /\ After
    \/ Step("put_index") /\ PutIndex(Cur.i, Cur.v, Cur.threw, Cur.old) /\ After
    \/ Step("bad_key") /\ BadKey(Cur.threw) /\ After
    \/ Step("measure") /\ Measure(Cur.size, Cur.empty, Cur.capacity) /\ After
    \/ Step("resize") /\ Resize(Cur.n, Cur.threw) /\ After
    \/ Step("reserve") /\ Reserve(Cur.n, Cur.threw, Cur.capacity) /\ After
    \/ Step("clear") /\ Clear /\ After
    \/ Step("push") /\ Push(Cur.v, Cur.threw) /\ After
    \/ Step("pop") /\ Pop(Cur.threw) /\ After
    \/ Step("insert_at") /\ InsertAt0(Cur.i, Cur.vs, Cur.own, Cur.threw, Cur.at) /\ After
    \/ Step("insert_range") /\ InsertRange(Cur.i, Cur.from, Cur.to, Cur.own, Cur.threw, Cur.at) /\ After
    \/ Step("erase_index") /\ EraseIndex(Cur.i, Cur.threw) /\ After
    \/ Step("erase_at") /\ EraseAt(Cur.i, Cur.own, Cur.threw, Cur.at) /\ After
    \/ Step("erase_range") /\ EraseRange(Cur.from, Cur.to, Cur.own, Cur.threw, Cur.at) /\ After
    \/ Step("insert_key") /\ InsertKey(Cur.key, Cur.v, Cur.threw, Cur.at, Cur.fresh) /\ After
    \/ Step("assign_key") /\ AssignKey(Cur.key, Cur.v, Cur.threw, Cur.at, Cur.fresh) /\ After
    \/ Step("emplace_key") /\ EmplaceKey(Cur.key, Cur.v, Cur.threw, Cur.at, Cur.fresh) /\ After
    \/ Step("insert_members") /\ InsertMembers(Cur.from, Cur.to, Cur.own, Cur.threw) /\ After
    \/ Step("erase_key") /\ EraseKey(Cur.key, Cur.threw, Cur.n) /\ After
    \/ Step("lookup") /\ Lookup(Cur.key, Cur.threw, Cur.n, Cur.has, Cur.at) /\ After
    \/ Step("merge") /\ Merge(Cur.threw, Cur.kept) /\ After
    \/ Step("init") /\ FromList(Cur.vs) /\ After
    \/ Step("types") /\ UNCHANGED jvars /\ Cur.tag = j[1] /\ Cur.kinds = 1 /\ After
    \/ ((Accept \/ Stay) /\ UNCHANGED jvars)
\* objects stay sorted by key, without duplicates
RECURSIVE WellFormed(_)
WellFormed(v) ==
    CASE IsA(v, "a") -> \A k \in 1..Len(v[2]) : WellFormed(v[2][k])
      [] IsA(v, "o") -> /\ \A k \in 1..Len(v[2]) : WellFormed(v[2][k][2])
                        /\ \A k \in 1..(Len(v[2]) - 1) : LexLess(v[2][k][1], v[2][k + 1][1])
      [] OTHER -> TRUE
Sorted == WellFormed(j) /\ WellFormed(o)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, jvars>>
=============================================================================
