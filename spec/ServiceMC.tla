----------------------------- MODULE ServiceMC -----------------------------
(* Requests, datagrams and releases in every order.                           *)
EXTENDS Service
CONSTANTS Sockets, Threads, MaxRequests, MaxData
VARIABLES by, sent, out
mcvars == <<svars, by, sent, out>>
MCInit == SInit /\ by = [t \in Threads |-> 0] /\ sent = 0 /\ out = <<>>
Made == Cardinality(DOMAIN req)
Next ==
    \/ \E s \in Sockets : s = Cardinality(DOMAIN soc) + 1 /\ Open(s) /\ UNCHANGED <<by, sent, out>>
    \/ \E t \in Threads, s \in DOMAIN soc, k \in {"read", "write"} :
          /\ by[t] = 0 /\ Made < MaxRequests /\ soc[s].st = "open" /\ ~soc[s].closed
          /\ Request(Made + 1, s, k) /\ by' = [by EXCEPT ![t] = Made + 1] /\ UNCHANGED <<sent, out>>
    \/ \E t \in Threads : by[t] # 0 /\ Requested(by[t]) /\ by' = [by EXCEPT ![t] = 0] /\ UNCHANGED <<sent, out>>
    \/ \E s \in DOMAIN soc : \/ sent < MaxData /\ soc[s].st = "open" /\ ~soc[s].closed /\ Arrive(s) /\ sent' = sent + 1 /\ UNCHANGED <<by, out>>
                             \/ soc[s].data > 0 /\ soc[s].st = "open" /\ ~soc[s].closed /\ Take(s, TRUE) /\ UNCHANGED <<by, sent, out>>
                             \/ soc[s].st = "open" /\ ~soc[s].closed /\ (\A t \in Threads : IF by[t] = 0 THEN TRUE ELSE req[by[t]].s # s) /\ Close(s) /\ UNCHANGED <<by, sent, out>>
                             \/ soc[s].st = "open" /\ (\A t \in Threads : IF by[t] = 0 THEN TRUE ELSE req[by[t]].s # s) /\ Release(s) /\ UNCHANGED <<by, sent, out>>
                             \/ soc[s].st = "released" /\ (IF busy = 0 THEN TRUE ELSE req[busy].s # s) /\ Dead(s) /\ UNCHANGED <<by, sent, out>>
    \/ \E r \in DOMAIN req : Begin(r, TRUE) /\ out' = Append(out, r) /\ UNCHANGED <<by, sent>>
    \/ busy # 0 /\ End(busy) /\ UNCHANGED <<by, sent, out>>
Spec == MCInit /\ [][Next]_mcvars
Position(r) == CHOOSE k \in DOMAIN out : out[k] = r
Once == \A j, k \in DOMAIN out : j # k => out[j] # out[k]
InOrder == \A x, y \in DOMAIN req :
    (req[x].st = "done" /\ req[y].st = "done" /\ req[x].s = req[y].s /\ req[x].kind = req[y].kind /\ req[x].qb < req[y].qa)
    => Position(x) < Position(y)
\* a request which can be answered is, or an earlier one of its kind can
Ready(r) == req[r].st = "on" /\ soc[req[r].s].st = "open" /\ ~soc[req[r].s].closed /\ (req[r].kind = "read" => soc[req[r].s].data > 0)
NotStuck == busy = 0 /\ (\E r \in DOMAIN req : Ready(r)) =>
              \E r \in DOMAIN req : Ready(r) /\ \A q \in DOMAIN req : q # r /\ req[q].s = req[r].s /\ req[q].kind = req[r].kind /\ req[q].st = "on" => ~(req[q].qb < req[r].qa)
=============================================================================
