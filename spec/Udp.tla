--------------------------------- MODULE Udp ---------------------------------
(* Datagram sockets.  A message is sent as datagrams of the packet size of    *)
(* its socket, the last one possibly shorter, in order and each once, to the  *)
(* socket it is addressed to.  A receive takes the oldest datagram there,     *)
(* and gives the whole of it, or as much as the packet size of the receiver.  *)
(* An asynchronous operation which was accepted completes exactly once,       *)
(* unless its socket is closed or released first; a send with the number of   *)
(* bytes which really were sent.  A failed operation closes its socket.       *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES soc,   \* socket -> [packet, closed, faulty, held, queue: datagrams, got: <<>> or <<the datagram just read>>]
          ops    \* operation -> [kind, s, d, m, at, sync, st: "on", "done", dead: begun when the socket was closed]
uvars == <<soc, ops>>
UdpInit == soc = <<>> /\ ops = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Less(a, b) == IF a < b THEN a ELSE b
Byte(o, k) == 33 + ((k * 7 + o * 13) % 90)
Content(d) == [k \in 1..d.n |-> Byte(d.o, d.at + k - 1)]

Socket(s, packet) == /\ s \notin DOMAIN soc
                     /\ soc' = With(soc, s, [packet |-> packet, closed |-> FALSE, faulty |-> FALSE, held |-> TRUE, queue |-> <<>>, got |-> <<>>])
                     /\ UNCHANGED ops
Fault(s) == soc' = [soc EXCEPT ![s].faulty = TRUE] /\ UNCHANGED ops
Start(o, kind, s, d, m, sync) ==
    /\ o \notin DOMAIN ops
    /\ ops' = With(ops, o, [kind |-> kind, s |-> s, d |-> d, m |-> m, at |-> 0, sync |-> sync, st |-> "on", dead |-> soc[s].closed])
    /\ UNCHANGED soc
Pending(s, kind) == {o \in DOMAIN ops : ops[o].s = s /\ ops[o].kind = kind /\ ops[o].st = "on"}
\* A datagram of n bytes leaves socket s.
Sent(s, n) ==
    \E o \in Pending(s, "send") :
       /\ ops[o].at < ops[o].m
       /\ n = Less(soc[s].packet, ops[o].m - ops[o].at)
       /\ ops' = [ops EXCEPT ![o].at = @ + n]
       /\ soc' = [soc EXCEPT ![ops[o].d].queue = IF soc[ops[o].d].closed \/ ~soc[ops[o].d].held THEN @ ELSE Append(@, [o |-> o, at |-> ops[o].at, n |-> n])]
\* One is read from it.
Taken(s, n) ==
    /\ soc[s].queue # <<>> /\ soc[s].got = <<>> /\ Pending(s, "recv") # {}
    /\ LET d == Head(soc[s].queue)
           cut == Less(d.n, soc[s].packet)
       IN n = cut /\ soc' = [soc EXCEPT ![s].queue = Tail(@), ![s].got = <<[d EXCEPT !.n = cut]>>]
    /\ UNCHANGED ops
MayFail(s) == soc[s].faulty \/ soc[s].closed
SendEnd(o, n) ==
    /\ o \in DOMAIN ops /\ ops[o].st = "on" /\ ops[o].kind = "send"
    /\ n = ops[o].at
    /\ n < ops[o].m => MayFail(ops[o].s)
    /\ ops' = [ops EXCEPT ![o].st = "done"]
    /\ soc' = IF n < ops[o].m /\ (~ops[o].sync \/ n = 0) THEN [soc EXCEPT ![ops[o].s].closed = TRUE, ![ops[o].s].queue = <<>>] ELSE soc
ReceiveEnd(o, data) ==
    /\ o \in DOMAIN ops /\ ops[o].st = "on" /\ ops[o].kind = "recv"
    /\ LET s == ops[o].s IN
       IF data = <<>>
       THEN /\ MayFail(s) /\ soc[s].got = <<>>
            /\ soc' = [soc EXCEPT ![s].closed = TRUE, ![s].queue = <<>>]
       ELSE /\ soc[s].got # <<>> /\ data = Content(Head(soc[s].got))
            /\ soc' = [soc EXCEPT ![s].got = <<>>]
    /\ ops' = [ops EXCEPT ![o].st = "done"]
Close(s) == soc' = [soc EXCEPT ![s].closed = TRUE, ![s].queue = <<>>] /\ UNCHANGED ops
Release(s) == soc' = [soc EXCEPT ![s].held = FALSE] /\ UNCHANGED ops
IsOpen(s, open) == (soc[s].held => open = ~soc[s].closed) /\ UNCHANGED uvars
Quiet ==
    /\ \A o \in DOMAIN ops : ops[o].st = "on" =>
         LET s == ops[o].s IN
         \/ ~soc[s].held
         \/ soc[s].closed /\ ~ops[o].dead
         \/ ~soc[s].closed /\ ops[o].kind = "recv" /\ soc[s].queue = <<>>
    /\ \A s \in DOMAIN soc : soc[s].got = <<>>
    /\ UNCHANGED uvars
=============================================================================
