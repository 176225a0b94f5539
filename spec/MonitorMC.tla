------------------------------ MODULE MonitorMC ------------------------------
(* Samples from a small set in any order, polled metric by metric.  What one   *)
(* metric shows does not depend on the others (but for the number of           *)
(* processors), so they vary in turn.                                          *)
EXTENDS Monitor
CONSTANTS Deep,
          Vary \* "cpu", "proc" or "mem"
Counters == CASE Vary # "cpu" -> {<<1, 1, 1, 1>>} [] Deep -> [1..4 -> {0, 1, 3}] [] OTHER -> {0, 2} \X {0, 1} \X {0, 1} \X {0, 1, 3}
Procs == IF Vary # "proc" THEN {<<1, 0, 0>>} ELSE {1, 2, 4} \X {0, 1} \X {0, 2}
Fine(x) == IF Vary = "mem" THEN BOOLEAN ELSE {TRUE}
Samples == {[cpus |-> n, cpu |-> c, proc |-> p, mem |-> [ok |-> m, total |-> <<7>>, used |-> <<k>>, unit |-> 4], rss |-> r] :
              n \in IF Vary = "proc" THEN {0, 1, 2} ELSE {2}, c \in Counters \cup {<<>>}, p \in Procs \cup {<<>>},
              m \in Fine(1), k \in IF Vary = "mem" THEN {0, 3, 7} ELSE {3}, r \in IF Vary = "mem" THEN {<<>>, <<0>>, <<5>>, <<9, 9>>} ELSE {<<5>>}}
Next == \/ (sam = <<>> \/ alive = "alive") /\ \E s \in Samples : Sample(s)
        \/ \E r \in BOOLEAN, ok \in BOOLEAN : Create(r, ok)
        \/ Vary = "cpu" /\ Poll("cpu")
        \/ Vary = "proc" /\ (Poll("count") \/ Poll("proc"))
        \/ Vary = "mem" /\ (Poll("mem") \/ Poll("rss"))
        \/ alive = "alive" /\ Release
Spec == MInit /\ [][Next]_mvars
\* a failed sample changes nothing that is published
KeepsOnFailure == [][(sam # <<>> /\ alive = "alive" /\ sam' = sam) =>
                       /\ sam.cpus = 0 => pub'.count = pub.count
                       /\ sam.cpu = <<>> => pub'.cpu = pub.cpu /\ sprev' = sprev
                       /\ sam.proc = <<>> => pub'.proc = pub.proc /\ pprev' = pprev
                       /\ ~sam.mem.ok => pub'.total = pub.total /\ pub'.used = pub.used
                       /\ sam.rss = <<>> => pub'.rss = pub.rss]_mvars
\* polling the same sample again would change nothing
Again == alive = "alive" => /\ "cpu" \notin todo /\ sam.cpu # <<>> => sprev = sam.cpu
                            /\ "proc" \notin todo /\ sam.proc # <<>> => pprev = sam.proc
Fits2 == ~Less(pub.total, pub.used)
=============================================================================
