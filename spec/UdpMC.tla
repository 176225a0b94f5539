-------------------------------- MODULE UdpMC --------------------------------
(* Two sockets exchange messages of every small size.                         *)
EXTENDS Udp
CONSTANTS MaxOps, Messages, MaxFaults
VARIABLES flown,   \* operation -> datagrams which left
          seen,    \* socket -> datagrams received
          faults
mcvars == <<uvars, flown, seen, faults>>
MCInit == UdpInit /\ flown = [o \in 1..MaxOps |-> <<>>] /\ seen = [s \in 1..2 |-> <<>>] /\ faults = 0
N == Cardinality(DOMAIN ops)
Free(s, kind) == Pending(s, kind) = {}
Next ==
    \/ \E s \in 1..2 : s = Cardinality(DOMAIN soc) + 1 /\ (\E p \in {1, 2} : Socket(s, p)) /\ UNCHANGED <<flown, seen, faults>>
    \/ /\ Cardinality(DOMAIN soc) = 2 /\ N < MaxOps
       /\ \E s \in 1..2, d \in 1..2, m \in Messages, k \in {"send", "recv"} :
            /\ soc[s].held /\ (k = "send" => Free(s, "send")) /\ (k = "recv" => m = 1 /\ d = s)
            /\ Start(N + 1, k, s, d, m, FALSE)
       /\ UNCHANGED <<flown, seen, faults>>
    \/ \E s \in DOMAIN soc : \E o \in Pending(s, "send") :
          LET n == Less(soc[s].packet, ops[o].m - ops[o].at) IN
          /\ ~soc[s].closed /\ Sent(s, n) /\ flown' = [flown EXCEPT ![o] = Append(@, n)] /\ UNCHANGED <<seen, faults>>
    \/ \E s \in DOMAIN soc : \E n \in 0..2 : ~soc[s].closed /\ Taken(s, n) /\ UNCHANGED <<flown, seen, faults>>
    \/ \E o \in DOMAIN ops : /\ ops[o].kind = "send" /\ SendEnd(o, ops[o].at) /\ UNCHANGED <<flown, seen, faults>>
    \/ \E o \in DOMAIN ops : /\ ops[o].kind = "recv"
                             /\ LET s == ops[o].s IN
                                \/ soc[s].got # <<>> /\ ReceiveEnd(o, Content(Head(soc[s].got))) /\ seen' = [seen EXCEPT ![s] = Append(@, Head(soc[s].got))]
                                \/ ReceiveEnd(o, <<>>) /\ UNCHANGED seen
                             /\ UNCHANGED <<flown, faults>>
    \/ \E s \in DOMAIN soc : faults < MaxFaults /\ faults' = faults + 1 /\ (Fault(s) \/ Close(s) \/ Release(s)) /\ UNCHANGED <<flown, seen>>
Spec == MCInit /\ [][Next]_mcvars
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
\* a message leaves in packets of full size, the last one shorter, and its end reports what left
Packets == \A o \in DOMAIN ops : ops[o].kind = "send" =>
              /\ Sum(flown[o]) = ops[o].at
              /\ \A k \in DOMAIN flown[o] : k < Len(flown[o]) => flown[o][k] = soc[ops[o].s].packet
              /\ ops[o].st = "done" /\ ~MayFail(ops[o].s) => ops[o].at = ops[o].m
\* nothing is received twice, and what comes from one sender comes in its order
Order == \A s \in 1..2 : \A j, k \in DOMAIN seen[s] : j < k =>
            LET a == seen[s][j]
                b == seen[s][k]
            IN /\ <<a.o, a.at>> # <<b.o, b.at>>
               /\ ops[a.o].s = ops[b.o].s => a.o < b.o \/ (a.o = b.o /\ a.at < b.at)
\* without failures, nothing is lost
Kept == faults = 0 => \A s \in DOMAIN soc : Len(seen[s]) + Len(soc[s].queue) + Len(soc[s].got) =
            Cardinality({<<o, k>> \in (DOMAIN ops) \X (1..3) : ops[o].kind = "send" /\ ops[o].d = s /\ k <= Len(flown[o])})
=============================================================================
