------------------------------- MODULE TcpMC -------------------------------
(* One listener and some clients: connections, transfers, ends and failures   *)
(* in every order.                                                            *)
EXTENDS Tcp
CONSTANTS Clients, MaxOps, Most, Faults, Graceful
VARIABLES n, faults
mcvars == <<tvars, n, faults>>
L == 100
Accepted(p) == 10 + p
MCInit == TcpInit /\ n = 0 /\ faults = 0
Same == UNCHANGED <<n, faults>>
Open(s) == soc[s].held /\ ~Closed(s)
\* everything which was sent to this end was received
Drained(s) == IF soc[s].end = "l" THEN \A p \in DOMAIN con : con[p].st # "trying" /\ (con[p].st = "made" => con[p].acc # 0)
              ELSE LET p == soc[s].conn  e == soc[s].end IN
                   /\ Pending(s) = {} /\ con[p].rx[e] = con[p].tx[Other(e)] /\ con[p].st = "made" /\ con[p].acc # 0
                   /\ (\A q \in Pending(SocketOf(p, Other(e))) : ops[q].kind # "send")
Next ==
    \/ L \notin DOMAIN soc /\ Listener(L) /\ Same
    \/ L \in DOMAIN soc /\ Open(L) /\ Listen(L, TRUE) /\ Same
    \/ \E s \in Clients : s \notin DOMAIN soc /\ Client(s) /\ (Graceful => lst = "on") /\ Same
    \/ /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED faults
       /\ \E s \in DOMAIN soc :
            /\ soc[s].held
            /\ \/ soc[s].end = "l" /\ soc[s].st = "listening" /\ Pending(s) = {} /\ Start(n', "accept", s, 0, FALSE)
               \/ soc[s].end = "c" /\ soc[s].st = "idle" /\ Start(n', "connect", s, 0, FALSE)
               \/ /\ soc[s].st \in {"connected", "closed"} /\ soc[s].end # "l"
                  /\ \E k \in {"send", "recv"}, m \in 1..Most :
                        /\ Graceful => LET f == SocketOf(soc[s].conn, Other(soc[s].end)) IN
                                       /\ soc[s].st = "connected"
                                       /\ f # 0 /\ soc[f].held /\ (k = "send" => soc[f].st = "connected")
                        /\ \A q \in Pending(s) : ops[q].kind # k
                        /\ k = "recv" => m = 1
                        /\ Start(n', k, s, m, FALSE)
    \/ \E o \in DOMAIN ops :
          /\ Same
          /\ \/ \E st \in {"connected", "disconnected"} : ConnectEnd(o, st)
             \/ AcceptEnd(o, 0, 0)
             \/ \E p \in DOMAIN con : AcceptEnd(o, p, Accepted(p))
             \/ ops[o].kind = "send" /\ \E k \in 0..Most : SendEnd(o, k)
             \/ ops[o].kind = "recv" /\ \E k \in 0..(2 * Most) : ReceiveEnd(o, k, TRUE, 2 * Most)
    \/ \E s \in DOMAIN soc :
          /\ UNCHANGED n
          /\ \/ Open(s) /\ (Graceful => Drained(s)) /\ Close(s) /\ UNCHANGED faults
             \/ soc[s].held /\ (Graceful => Drained(s)) /\ Release(s) /\ UNCHANGED faults
             \/ faults < Faults /\ Open(s) /\ Fault(s) /\ faults' = faults + 1
Spec == MCInit /\ [][Next]_mcvars
\* an end which was left gracefully by everyone loses nothing
Delivered == Graceful /\ Faults = 0 =>
    \A p \in DOMAIN con : \A e \in {"c", "s"} :
        (con[p].st = "made" /\ con[p].acc # 0 /\ Closed(SocketOf(p, e)) /\ ~CanBeShut(p, Other(e))) => con[p].rx[e] = con[p].tx[Other(e)]
\* a stream which both ends closed gracefully arrived as a whole
Whole == Graceful /\ Faults = 0 =>
    \A o \in DOMAIN ops : (ops[o].kind = "send" /\ ops[o].st = "done") => con[soc[ops[o].s].conn].hi[soc[ops[o].s].end] = con[soc[ops[o].s].conn].tx[soc[ops[o].s].end]
                                                                          \/ \E q \in Pending(ops[o].s) : ops[q].kind = "send"
\* a client which is connected and an accepted socket belong together
Paired == \A p \in DOMAIN con : con[p].acc # 0 => soc[con[p].acc].conn = p /\ con[p].st = "made"
\* nothing which was completed is completed again, and a closed socket stays closed
Final == [][\A o \in DOMAIN ops : ops[o].st = "done" => o \in DOMAIN ops' /\ ops'[o] = ops[o]]_mcvars
StaysClosed == [][\A s \in DOMAIN soc : Closed(s) => Closed(s)']_mcvars
\* what was received stays received, what was sent stays sent
Grows == [][\A p \in DOMAIN con : \A e \in {"c", "s"} : con'[p].tx[e] >= con[p].tx[e] /\ con'[p].rx[e] >= con[p].rx[e]]_mcvars
=============================================================================
