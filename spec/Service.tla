------------------------------ MODULE Service ------------------------------
(* The socket service: a request to be told when a socket can be read or      *)
(* written is answered once, on one sequence, when that is so; requests for   *)
(* one socket and direction are answered in the order in which they were      *)
(* made.  A request is dropped when its socket is destroyed, and may be       *)
(* dropped or answered when it is closed.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES now, soc,   \* socket -> [st: "open", "closed", "released", "dead", data]
          req,        \* request -> [s, kind, st: "on", "done", qa, qb]
          busy,       \* the request being answered, 0: none
          live        \* the service: "yes", "released", "no"
svars == <<now, soc, req, busy, live>>
Never == 1000000000
SInit == now = 0 /\ soc = <<>> /\ req = <<>> /\ busy = 0 /\ live = "yes"
Tick == now' = now + 1
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Open(s) == s \notin DOMAIN soc /\ soc' = With(soc, s, [st |-> "open", closed |-> FALSE, data |-> 0]) /\ Tick /\ UNCHANGED <<req, busy, live>>
Request(r, s, kind) == /\ r \notin DOMAIN req
                       /\ req' = With(req, r, [s |-> s, kind |-> kind, st |-> "on", qa |-> now, qb |-> Never])
                       /\ Tick /\ UNCHANGED <<soc, busy, live>>
Requested(r) == req' = [req EXCEPT ![r].qb = now] /\ Tick /\ UNCHANGED <<soc, busy, live>>
\* A datagram is sent to the socket.
Arrive(s) == /\ soc' = [soc EXCEPT ![s].data = IF soc[s].closed THEN @ ELSE @ + 1]
             /\ Tick /\ UNCHANGED <<req, busy, live>>
\* A datagram is read.
Take(s, ok) == /\ ok = (soc[s].data > 0 /\ ~soc[s].closed)
               /\ soc' = [soc EXCEPT ![s].data = IF ok THEN @ - 1 ELSE @]
               /\ Tick /\ UNCHANGED <<req, busy, live>>
\* The answer: `right` says that it came with the socket it was asked for.
Begin(r, right) ==
    /\ live # "no" /\ busy = 0
    /\ r \in DOMAIN req /\ req[r].st = "on" /\ right
    /\ LET s == req[r].s IN
       /\ soc[s].st # "dead"
       /\ req[r].kind = "read" /\ ~soc[s].closed => soc[s].data > 0
       /\ \A q \in DOMAIN req : q # r /\ req[q].s = s /\ req[q].kind = req[r].kind /\ req[q].st = "on" => ~(req[q].qb < req[r].qa)
    /\ busy' = r /\ req' = [req EXCEPT ![r].st = "done"]
    /\ Tick /\ UNCHANGED <<soc, live>>
End(r) == busy = r /\ busy' = 0 /\ Tick /\ UNCHANGED <<soc, req, live>>
Close(s) == soc' = [soc EXCEPT ![s].closed = TRUE] /\ Tick /\ UNCHANGED <<req, busy, live>>
\* The last reference of the user goes away, and is gone.
Release(s) == soc' = [soc EXCEPT ![s].st = "released"] /\ Tick /\ UNCHANGED <<req, busy, live>>
Dead(s) == soc' = [soc EXCEPT ![s].st = "dead"] /\ Tick /\ UNCHANGED <<req, busy, live>>
Quiet == /\ busy = 0
         /\ live = "yes" =>
            \A r \in DOMAIN req : req[r].st = "on" =>
                LET s == req[r].s IN soc[s].st # "open" \/ soc[s].closed \/ (req[r].kind = "read" /\ soc[s].data = 0)
         /\ Tick /\ UNCHANGED <<soc, req, busy, live>>
ReleaseService == live' = "released" /\ Tick /\ UNCHANGED <<soc, req, busy>>
ServiceGone(expired) == expired /\ busy = 0 /\ live' = "no" /\ Tick /\ UNCHANGED <<soc, req, busy>>
=============================================================================
