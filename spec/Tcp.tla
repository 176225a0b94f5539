--------------------------------- MODULE Tcp ---------------------------------
(* Stream sockets.  A listener accepts the connections made to it, each once. *)
(* A connection carries two byte streams: what one end was told it has sent   *)
(* is what the other receives, in order and without gaps, then - after the    *)
(* sender closed - the end of the stream.  An asynchronous operation which    *)
(* was accepted completes exactly once, unless its socket is closed or        *)
(* released first.  A failed operation closes its socket.                     *)
(* A connection is named by its client.                                       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES lst,    \* the listener: "none", "on", "off"
          soc,    \* socket -> [conn, end: "c", "s", "l", st: "idle", "connecting", "connected", "closed", faulty, held]
          con,    \* client -> [st: "none", "made", "refused", acc: socket or 0, tx, hi, rx: end -> bytes]
          ops     \* operation -> [kind, s, m, sync, st: "on", "done", ok]
tvars == <<lst, soc, con, ops>>
TcpInit == lst = "none" /\ soc = <<>> /\ con = <<>> /\ ops = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Zero == [c |-> 0, s |-> 0]
Other(e) == IF e = "c" THEN "s" ELSE "c"

\* A socket is made.
Client(s) == /\ s \notin DOMAIN soc
             /\ soc' = With(soc, s, [conn |-> s, end |-> "c", st |-> "idle", faulty |-> FALSE, held |-> TRUE])
             /\ con' = With(con, s, [st |-> "none", acc |-> 0, tx |-> Zero, hi |-> Zero, rx |-> Zero])
             /\ UNCHANGED <<lst, ops>>
Listener(s) == /\ soc' = With(soc, s, [conn |-> 0, end |-> "l", st |-> "idle", faulty |-> FALSE, held |-> TRUE])
               /\ UNCHANGED <<lst, con, ops>>
Listen(s, ok) == ok /\ soc[s].st = "idle" /\ lst' = "on" /\ soc' = [soc EXCEPT ![s].st = "listening"] /\ UNCHANGED <<con, ops>>

Closed(s) == soc[s].st = "closed"
SocketOf(p, e) == IF e = "c" THEN p ELSE con[p].acc
Pending(s) == {o \in DOMAIN ops : ops[o].s = s /\ ops[o].st = "on"}
\* An end may be closed, at least, from the system's point of view.
CanBeShut(p, e) ==
    LET s == SocketOf(p, e) IN
    IF s = 0 THEN lst = "off" \/ \E x \in DOMAIN soc : soc[x].end = "l" /\ soc[x].faulty
    ELSE Closed(s) \/ ~soc[s].held \/ (soc[s].faulty /\ Pending(s) # {})
\* The end closed before it received all, which makes the connection fail.
Reset(p) == \E e \in {"c", "s"} : CanBeShut(p, e) /\ (con[p].rx[e] < con[p].hi[Other(e)] \/ SocketOf(p, e) = 0)
\* The same for this end, or a consequence of it: the other end closed because its operation failed.
Broken(p, e) == Reset(p) \/ CanBeShut(p, Other(e)) \/ (\E f \in {"c", "s"} : SocketOf(p, f) # 0 /\ soc[SocketOf(p, f)].faulty)

\* An error is injected into a call for this socket.
Fault(s) == soc' = [soc EXCEPT ![s].faulty = TRUE] /\ UNCHANGED <<lst, con, ops>>

Start(o, kind, s, m, sync) ==
    /\ o \notin DOMAIN ops
    /\ ops' = With(ops, o, [kind |-> kind, s |-> s, m |-> m, sync |-> sync, st |-> "on", tried |-> lst # "on", closed |-> Closed(s)])
    /\ LET p == soc[s].conn
           e == soc[s].end
       IN /\ con' = IF kind = "send" THEN [con EXCEPT ![p].hi[e] = con[p].tx[e] + m]
                    ELSE IF kind = "connect" /\ ~Closed(s) THEN [con EXCEPT ![p].st = "trying"] ELSE con
          /\ kind = "send" => \A q \in Pending(s) : ops[q].kind # "send"
          /\ soc' = IF kind = "connect" /\ soc[s].st = "idle" THEN [soc EXCEPT ![s].st = "connecting"] ELSE soc
    /\ UNCHANGED lst

\* Connecting succeeds if someone listens.
ConnectEnd(o, state) ==
    /\ o \in DOMAIN ops /\ ops[o].st = "on" /\ ops[o].kind = "connect"
    /\ LET s == ops[o].s IN
       /\ state = "connected" => soc[s].st = "connecting" /\ lst # "none"
       /\ state = "disconnected" => ops[o].closed \/ soc[s].faulty \/ lst # "on" \/ ops[o].tried \/ Closed(s)
       /\ state \in {"connected", "disconnected"}
       /\ soc' = [soc EXCEPT ![s].st = IF state = "connected" THEN "connected" ELSE "closed"]
       /\ con' = [con EXCEPT ![s].st = IF state = "connected" THEN (IF @ = "made" THEN @ ELSE "made") ELSE IF @ = "made" THEN @ ELSE "refused"]
       /\ ops' = [ops EXCEPT ![o].st = "done"]
    /\ UNCHANGED lst

\* A connection is accepted, once; 0: accepting failed, which closes the listener.
AcceptEnd(o, p, s) ==
    /\ o \in DOMAIN ops /\ ops[o].st = "on" /\ ops[o].kind = "accept"
    /\ LET l == ops[o].s IN
       IF p = 0
       THEN /\ soc[l].faulty \/ Closed(l) \/ soc[l].st = "idle"
            /\ soc' = [soc EXCEPT ![l].st = "closed"] /\ lst' = "off" /\ UNCHANGED con
       ELSE /\ p \in DOMAIN con /\ con[p].acc = 0 /\ con[p].st \in {"trying", "made", "refused"}
            /\ ~Closed(l)
            /\ s \notin DOMAIN soc
            /\ con' = [con EXCEPT ![p].acc = s, ![p].st = "made"]
            /\ soc' = With(soc, s, [conn |-> p, end |-> "s", st |-> "connected", faulty |-> FALSE, held |-> TRUE])
            /\ UNCHANGED lst
    /\ ops' = [ops EXCEPT ![o].st = "done"]

\* n bytes were sent
SendEnd(o, n) ==
    /\ o \in DOMAIN ops /\ ops[o].st = "on" /\ ops[o].kind = "send"
    /\ LET s == ops[o].s
           p == soc[s].conn
           e == soc[s].end
           fails == n < ops[o].m
       IN /\ n >= 0 /\ n <= ops[o].m
          /\ n > 0 => ~ops[o].closed
          /\ fails => Closed(s) \/ soc[s].faulty \/ Broken(p, e) \/ soc[s].st # "connected"
          /\ ~fails /\ ops[o].m > 0 => ~ops[o].closed
          /\ con' = [con EXCEPT ![p].tx[e] = @ + n, ![p].hi[e] = con[p].tx[e] + n]
          \* what was sent is not less than what the other end has
          /\ con[p].rx[Other(e)] <= con[p].tx[e] + n
          /\ soc' = IF fails /\ (~ops[o].sync \/ n = 0) THEN [soc EXCEPT ![s].st = "closed"] ELSE soc
          /\ ops' = [ops EXCEPT ![o].st = "done"]
    /\ UNCHANGED lst

\* n bytes were received, which are the next ones of the stream (`same`)
ReceiveEnd(o, n, same, limit) ==
    /\ o \in DOMAIN ops /\ ops[o].st = "on" /\ ops[o].kind = "recv"
    /\ LET s == ops[o].s
           p == soc[s].conn
           e == soc[s].end
           f == Other(e)
       IN IF n > 0
          THEN /\ same /\ n <= limit /\ ~Closed(s)
               /\ con[p].rx[e] + n <= con[p].hi[f]
               /\ con' = [con EXCEPT ![p].rx[e] = @ + n]
               /\ UNCHANGED soc
          ELSE \* the end, or an error; either way the socket is closed
               /\ \/ Closed(s) \/ soc[s].faulty \/ Reset(p) \/ soc[s].st # "connected"
                  \/ CanBeShut(p, f) /\ con[p].rx[e] >= con[p].tx[f]
                  \/ \E q \in Pending(s) : ops[q].kind = "send" /\ Broken(p, e)
               /\ soc' = [soc EXCEPT ![s].st = "closed"]
               /\ UNCHANGED con
    /\ ops' = [ops EXCEPT ![o].st = "done"]
    /\ UNCHANGED lst

\* The user closes the socket: what is under way may complete without effect, or not at all.
Close(s) == /\ soc' = [soc EXCEPT ![s].st = "closed"]
            /\ lst' = (IF soc[s].end = "l" THEN "off" ELSE lst)
            /\ UNCHANGED <<con, ops>>
\* The user's reference is dropped.  Only an operation being completed keeps the socket.
Release(s) == /\ soc' = [soc EXCEPT ![s].held = FALSE]
              /\ lst' = (IF soc[s].end = "l" THEN "off" ELSE lst) /\ UNCHANGED <<con, ops>>
IsOpen(s, open) == (soc[s].held => open = ~Closed(s)) /\ UNCHANGED tvars

\* Left alone for long enough: what can be completed is.
Quiet ==
    /\ \A o \in DOMAIN ops : ops[o].st = "on" =>
         LET s == ops[o].s
             p == soc[s].conn
             e == soc[s].end
             f == Other(e)
         IN \/ ~soc[s].held
            \/ Closed(s) /\ ~ops[o].closed
            \/ /\ ~Closed(s) /\ ops[o].kind = "accept"
               /\ \A c \in DOMAIN con : con[c].st = "made" => con[c].acc # 0
            \/ /\ ~Closed(s) /\ ops[o].kind = "recv" /\ soc[s].st = "connected"
               /\ con[p].rx[e] = con[p].tx[f] /\ ~(SocketOf(p, f) # 0 /\ Closed(SocketOf(p, f)))
               /\ (SocketOf(p, f) # 0 => \A q \in Pending(SocketOf(p, f)) : ops[q].kind # "send")
            \/ /\ ~Closed(s) /\ ops[o].kind = "send" /\ soc[s].st = "connected"
               \* nobody receives what is sent
               /\ con[p].hi[e] - con[p].rx[f] > 1000
               /\ (SocketOf(p, f) # 0 => /\ ~Closed(SocketOf(p, f))
                                         /\ \A q \in Pending(SocketOf(p, f)) : ops[q].kind # "recv")
    /\ UNCHANGED tvars

\* What is received was sent.
NoInvention == \A p \in DOMAIN con : \A e \in {"c", "s"} : con[p].rx[e] <= con[p].hi[Other(e)]
AcceptedOnce == \A p, q \in DOMAIN con : p # q /\ con[p].acc # 0 => con[p].acc # con[q].acc
=============================================================================
