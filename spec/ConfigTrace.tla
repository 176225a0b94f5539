----------------------------- MODULE ConfigTrace -----------------------------
EXTENDS TraceKit, Config
TraceInit == TraceKitInit /\ CInit
Step(nm) == IsOp(nm) /\ Consume
\* A file as recorded: secs is a sequence of [name, keys: sequence of [k, kind, v]]
Vals(keys) == [k \in {keys[n].k : n \in DOMAIN keys} |->
                 LET n == CHOOSE m \in DOMAIN keys : keys[m].k = k IN [kind |-> keys[n].kind, v |-> keys[n].v]]
Secs(ss) == [s \in {ss[n].name : n \in DOMAIN ss} |-> LET n == CHOOSE m \in DOMAIN ss : ss[m].name = s IN Vals(ss[n].keys)]
TraceNext ==
    \/ Step("new") /\ New(Cur.good, Cur.ok)
    \/ Step("write") /\ Write([form |-> Cur.form, secs |-> Secs(Cur.secs)], Cur.torn)
    \/ Step("create") /\ Call(Cur.t, [op |-> "create", st |-> "called", sec |-> Cur.sec, type |-> Cur.type, id |-> 0, new |-> Cur.new])
    \/ Step("created") /\ CreateRet(Cur.t, Cur.id)
    \/ Step("drop") /\ Drop(Cur.id)
    \/ Step("get") /\ Get(Cur.id, Cur.key, Cur.kind, Cur.def, Cur.val)
    \/ Step("pruned") /\ PruneRet(Cur.n)
    \/ Step("quiet") /\ Quiet
    \/ Step("release") /\ Release
    \/ Step("gone") /\ Cur.expired /\ Gone
    \/ (More /\ UNCHANGED <<tid, l>> /\ (\/ Update \/ \E c \in todo : UpdateOne(c)
                                        \/ \E t \in DOMAIN calls : \E id \in {-1, calls[t].new} \cup DOMAIN conf : CreateEffect(t, id)))
    \/ ((Accept \/ Stay) /\ UNCHANGED cvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, cvars>>
=============================================================================
