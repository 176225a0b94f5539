----------------------------- MODULE Endpoints -----------------------------
(* Where sockets are: an open socket is bound to one address and port, which  *)
(* no other socket has unless both allow it, a connection has two ends each   *)
(* of which names the other one, and what is sent to an address and port      *)
(* arrives at the socket which is bound there.  Hosts have names.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES host, \* name -> address
          sk,   \* socket -> [kind, open, addr, port, reuse, st, raddr, rport, by]
          queue \* listening socket -> connections which nobody has accepted yet
evars == <<host, sk, queue>>
Addresses == {"a", "b", "c", "any", "far"}
Fail == "fail"
EInit == host = <<>> /\ sk = <<>> /\ queue = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
New(beta, many) == host' = [n \in {"alpha", "beta", "many", "gamma"} |-> CASE n = "alpha" -> "a" [] n = "beta" -> beta [] n = "many" -> many [] OTHER -> "far"]
                   /\ UNCHANGED <<sk, queue>>
\* an address, the text of one, or a name
Where(to) == IF to \in Addresses THEN to ELSE IF to \in DOMAIN host THEN host[to] ELSE Fail
Resolve(to, ok, addr) == ok = (Where(to) # Fail) /\ (ok => addr = Where(to)) /\ UNCHANGED evars

Unbound == [kind |-> "none", open |-> TRUE, addr |-> "any", port |-> 0, reuse |-> FALSE, st |-> "idle", raddr |-> "", rport |-> 0, by |-> 0]
Open(s, kind) == /\ s \notin DOMAIN sk
                 /\ sk' = With(sk, s, [Unbound EXCEPT !.kind = kind])
                 /\ queue' = With(queue, s, <<>>)
                 /\ UNCHANGED host

SameWorld(x, y) == (sk[x].kind = "udp") = (sk[y].kind = "udp")
Overlap(a, b) == a = b \/ a = "any" \/ b = "any"
Others(s, addr, port) == {o \in DOMAIN sk \ {s} : sk[o].open /\ SameWorld(s, o) /\ sk[o].port = port /\ port # 0 /\ Overlap(sk[o].addr, addr)}
\* with what a socket which would like to have an address and port cannot share them
Conflicts(s, addr, port, reuse) == {o \in Others(s, addr, port) : ~(reuse /\ sk[o].reuse /\ sk[o].st # "listening")}
Broken(o) == sk[o].st = "broken"

\* `free`: nobody else has it either; [ka, kp]: where the socket is then
Bind(s, to, port, reuse, ok, free, ka, kp) ==
    LET x == sk[s]
        addr == Where(to)
        again == reuse \/ x.reuse
        taken == Conflicts(s, addr, port, again)
        can == x.open /\ addr \notin {Fail, "far"} /\ x.port = 0
    IN /\ ok => can /\ \A o \in taken : Broken(o)
       /\ ~ok => ~can \/ taken # {} \/ ~free
       /\ IF ok
          THEN /\ ka = addr /\ (IF port = 0 THEN kp > 0 ELSE kp = port)
               /\ sk' = [sk EXCEPT ![s].addr = ka, ![s].port = kp, ![s].reuse = again]
          ELSE sk' = (IF x.open /\ addr # Fail THEN [sk EXCEPT ![s].reuse = again] ELSE sk)
       /\ UNCHANGED <<host, queue>>

Listen(s, ok) ==
    LET rivals == {o \in Others(s, sk[s].addr, sk[s].port) : sk[o].st = "listening"}
    IN /\ ok = (sk[s].open /\ rivals = {})
       /\ sk' = (IF ok THEN [sk EXCEPT ![s].st = "listening"] ELSE sk)
       /\ UNCHANGED <<host, queue>>

\* who listens there: the one with just that address before one with any
Listeners(addr, port) == {o \in DOMAIN sk : sk[o].open /\ sk[o].st = "listening" /\ sk[o].port = port /\ sk[o].addr \in {addr, "any"}}
Best(set, addr) == IF \E o \in set : sk[o].addr = addr THEN {o \in set : sk[o].addr = addr} ELSE set
\* a connection which could not be made closes the socket, unless there was nobody to connect to
Connect(s, to, port, state, ka, kp) ==
    LET x == sk[s]
        addr == Where(to)
        there == Best(Listeners(addr, port), addr)
    IN /\ x.open /\ x.st = "idle"
       /\ IF addr = Fail THEN state = "disconnected" /\ UNCHANGED <<sk, queue>>
          ELSE IF state = "connected"
          THEN /\ kp > 0 /\ ka # "any" /\ (x.port # 0 => kp = x.port) /\ (x.addr # "any" => ka = x.addr)
               /\ \E o \in there :
                    /\ queue' = [queue EXCEPT ![o] = Append(@, [s |-> s, addr |-> addr])]
                    /\ sk' = [sk EXCEPT ![s].st = "connected", ![s].addr = ka, ![s].port = kp, ![s].raddr = addr, ![s].rport = port, ![s].by = o]
          ELSE /\ state = "disconnected" /\ there = {}
               /\ sk' = [sk EXCEPT ![s].open = FALSE]
               /\ UNCHANGED queue
       /\ UNCHANGED host

\* The first of the connections is accepted.
AcceptOne(l, ok, s) ==
    LET c == Head(queue[l]) IN
    /\ sk[l].open /\ queue[l] # <<>>
    /\ ok /\ s \notin DOMAIN sk
    /\ sk' = With([sk EXCEPT ![c.s].by = s], s,
                  [Unbound EXCEPT !.kind = "tcp", !.addr = c.addr, !.port = sk[l].port, !.reuse = sk[l].reuse,
                                  !.st = IF Broken(c.s) \/ ~sk[c.s].open THEN "broken" ELSE "connected", !.raddr = sk[c.s].addr, !.rport = sk[c.s].port, !.by = c.s])
    /\ queue' = With([queue EXCEPT ![l] = Tail(@)], s, <<>>)
    /\ UNCHANGED host

Receivers(addr, port) == {o \in DOMAIN sk : sk[o].open /\ sk[o].kind = "udp" /\ sk[o].port = port /\ sk[o].addr \in {addr, "any"}}
\* A message arrives, whole, at one socket which is bound to where it is sent; a socket which is not
\* bound is from then on.
Send(s, to, port, m, n, arrived, same, ka, kp) ==
    LET x == sk[s]
        addr == Where(to)
        there == Best(Receivers(addr, port), addr)
    IN /\ x.open
       /\ n = (IF addr = Fail THEN 0 ELSE m)
       /\ IF addr = Fail \/ there = {} THEN arrived = <<>> ELSE Len(arrived) = 1 /\ arrived[1] \in there /\ same
       /\ IF x.port = 0 /\ addr # Fail
          THEN kp > 0 /\ sk' = [sk EXCEPT ![s].port = kp, ![s].addr = ka]
          ELSE ka = x.addr /\ kp = x.port /\ UNCHANGED sk
       /\ UNCHANGED <<host, queue>>

Close(s) == /\ sk' = [x \in DOMAIN sk |-> IF x = s THEN [sk[x] EXCEPT !.open = FALSE]
                                          ELSE IF sk[x].by = s /\ sk[x].st = "connected" THEN [sk[x] EXCEPT !.st = "broken"] ELSE sk[x]]
            /\ UNCHANGED <<host, queue>>

\* What a socket says of itself.
Look(s, open, local, remote) ==
    LET x == sk[s] IN
    /\ open = x.open
    /\ local.ok = x.open
    /\ x.open /\ ~Broken(s) => local.addr = x.addr /\ local.port = x.port
    /\ ~Broken(s) => remote.ok = (x.open /\ x.st = "connected")
    /\ remote.ok => x.kind = "tcp" /\ remote.addr = x.raddr /\ remote.port = x.rport
    /\ UNCHANGED evars

\* ---- what must be so
Exclusive == \A x, y \in DOMAIN sk :
    x # y /\ sk[x].open /\ sk[y].open /\ SameWorld(x, y) /\ sk[x].port # 0 /\ sk[x].port = sk[y].port /\ Overlap(sk[x].addr, sk[y].addr)
    /\ ~Broken(x) /\ ~Broken(y)
        => \/ sk[x].reuse /\ sk[y].reuse /\ ~(sk[x].st = "listening" /\ sk[y].st = "listening")
           \/ "connected" \in {sk[x].st, sk[y].st} \* the ends of connections which were accepted
Mutual == \A x \in DOMAIN sk : sk[x].open /\ sk[x].st = "connected" /\ sk[sk[x].by].st = "connected" =>
    LET y == sk[sk[x].by] IN y.raddr = sk[x].addr /\ y.rport = sk[x].port /\ sk[x].raddr = y.addr /\ sk[x].rport = y.port
=============================================================================
