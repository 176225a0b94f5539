--------------------------- MODULE EndpointsMC ---------------------------
(* Every sequence of operations of a few sockets on few addresses and ports.  *)
EXTENDS Endpoints
CONSTANTS Max, \* sockets
          Bound \* operations
VARIABLE steps
Ports == {5, 6}
Auto == 7..(6 + Max) \* those which the system chooses: another one for each socket
Where2 == {"a", "any", "alpha", "nowhere"}
S == DOMAIN sk
Init == EInit /\ steps = 0
Do == \/ host = <<>> /\ New("b", "a")
      \/ host # <<>> /\
         \/ \E s \in 1..Max, k \in {"listen", "tcp", "udp"} : s \notin S /\ (\A x \in 1..(s - 1) : x \in S) /\ Open(s, k)
         \/ \E s \in S :
            \/ \E to \in Where2, p \in {0} \cup Ports, r, ok \in BOOLEAN :
                 /\ sk[s].st = "idle"
                 /\ Bind(s, to, p, r, ok, TRUE, Where(to), IF p = 0 THEN 6 + s ELSE p)
            \/ sk[s].kind = "listen" /\ sk[s].port # 0 /\ \E ok \in BOOLEAN : Listen(s, ok)
            \/ sk[s].kind = "tcp" /\ \E to \in Where2, p \in Ports, st \in {"connected", "disconnected"} :
                 Connect(s, to, p, st, IF sk[s].addr = "any" THEN "a" ELSE sk[s].addr, IF sk[s].port = 0 THEN 6 + s ELSE sk[s].port)
            \/ queue[s] # <<>> /\ \E n \in 1..Max : n \notin S /\ (\A x \in 1..(n - 1) : x \in S) /\ AcceptOne(s, TRUE, n)
            \/ sk[s].kind = "udp" /\ \E to \in Where2, p \in Ports, n \in {0, 1} : \E arrived \in {<<>>} \cup {<<x>> : x \in S} :
                 Send(s, to, p, 1, n, arrived, TRUE, sk[s].addr, IF sk[s].port = 0 /\ Where(to) # Fail THEN 6 + s ELSE sk[s].port)
            \/ sk[s].open /\ Close(s)
Next == steps < Bound /\ Do /\ steps' = steps + 1
Spec == Init /\ [][Next]_<<evars, steps>>
\* whatever is asked, something can be answered
Answered == \A s \in S : host # <<>> =>
    /\ \A to \in Where2, p \in Ports, r \in BOOLEAN : ENABLED (\E ok \in BOOLEAN : Bind(s, to, p, r, ok, TRUE, Where(to), p))
    /\ sk[s].kind = "udp" /\ sk[s].open =>
        \A to \in Where2, p \in Ports : ENABLED (\E n \in {0, 1} : \E arrived \in {<<>>} \cup {<<x>> : x \in S} :
            Send(s, to, p, 1, n, arrived, TRUE, sk[s].addr, IF sk[s].port = 0 /\ Where(to) # Fail THEN 6 + s ELSE sk[s].port))
=============================================================================
