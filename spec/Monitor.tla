------------------------------- MODULE Monitor -------------------------------
(* The system monitor: samples are taken of what the system reports (counters  *)
(* of processor time, memory), one after the other, and what they mean is      *)
(* published, metric by metric.  A sample which cannot be taken, or does not   *)
(* follow the one before, leaves what was published.                           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, Numerals

VARIABLES sam,     \* what the system reports now
          todo,    \* metrics not yet refreshed from it
          sprev,   \* counters of the system at the last sample: <<user, nice, system, idle>>, or <<>>
          pprev,   \* of the process: <<now, user, system>>, or <<>>
          pub,     \* what is published
          alive    \* "none", "alive", "gone"
mvars == <<sam, todo, sprev, pprev, pub, alive>>

Metrics == {"count", "cpu", "proc", "mem", "rss"}
\* a percentage: 100 * num / den, or anything in range after the first sample
Zero == [k |-> "frac", num |-> 0, den |-> 1]
InRange == [k |-> "range", num |-> 0, den |-> 1]

MInit == /\ sam = <<>> /\ todo = {} /\ sprev = <<>> /\ pprev = <<>> /\ alive = "none"
         /\ pub = [count |-> 0, cpu |-> Zero, proc |-> Zero, total |-> <<0>>, used |-> <<0>>, rss |-> <<0>>]

\* What the system reports changes.
\* [stat: readable, cpus, cpu: the counters or <<>>, proc: <<now, user, system>> or <<>>, mem: [ok, total, used, unit], rss: digits in kB or <<>>]
Sample(s) == /\ sam' = s /\ todo' = Metrics
             /\ UNCHANGED <<sprev, pprev, pub, alive>>

\* The number of processors is needed to begin.
Create(runs, ok) ==
    /\ alive = "none" /\ sam # <<>>
    /\ ok <=> (sam.cpus > 0 /\ runs)
    /\ alive' = IF ok THEN "alive" ELSE "gone"
    /\ pub' = IF ok THEN [pub EXCEPT !.count = sam.cpus] ELSE pub
    /\ UNCHANGED <<sam, todo, sprev, pprev>>

\* ---- one metric is refreshed: [pub, sprev, pprev]
Times(d, n) == MulAdd(d, n, 0)
Count(st) == IF sam.cpus > 0 THEN [st EXCEPT !.pub.count = sam.cpus] ELSE st
Cpu(st) ==
    IF sam.cpu = <<>> THEN st
    ELSE LET d == [k \in DOMAIN st.sprev |-> sam.cpu[k] - st.sprev[k]]
             active == d[1] + d[2] + d[3]
         IN [st EXCEPT !.sprev = sam.cpu,
                       !.pub.cpu = IF st.sprev = <<>> THEN InRange
                                   ELSE IF (\A k \in 1..4 : d[k] >= 0) /\ active + d[4] > 0
                                        THEN [k |-> "frac", num |-> active, den |-> active + d[4]] ELSE @]
Proc(st) ==
    IF sam.proc = <<>> THEN st
    ELSE LET d == [k \in DOMAIN st.pprev |-> sam.proc[k] - st.pprev[k]]
         IN [st EXCEPT !.pprev = sam.proc,
                       !.pub.proc = IF st.pprev = <<>> THEN InRange
                                    ELSE IF d[1] > 0 /\ d[2] >= 0 /\ d[3] >= 0
                                         THEN [k |-> "frac", num |-> d[2] + d[3], den |-> d[1] * st.pub.count] ELSE @]
Mem(st) == IF sam.mem.ok THEN [st EXCEPT !.pub.total = Times(sam.mem.total, sam.mem.unit), !.pub.used = Times(sam.mem.used, sam.mem.unit)] ELSE st
Rss(st) == IF sam.rss # <<>> /\ sam.rss # <<0>> THEN [st EXCEPT !.pub.rss = Times(sam.rss, 1024)] ELSE st
One(st, m) == CASE m = "count" -> Count(st) [] m = "cpu" -> Cpu(st) [] m = "proc" -> Proc(st) [] m = "mem" -> Mem(st) [] m = "rss" -> Rss(st)
\* those of a sequence, unless they have been refreshed already
RECURSIVE Each(_, _)
Each(st, ms) == IF ms = <<>> THEN st ELSE Each(IF Head(ms) \in todo THEN One(st, Head(ms)) ELSE st, Tail(ms))
Refresh(ms) == LET st == Each([pub |-> pub, sprev |-> sprev, pprev |-> pprev], ms)
               IN pub' = st.pub /\ sprev' = st.sprev /\ pprev' = st.pprev /\ todo' = todo \ {ms[k] : k \in DOMAIN ms}
Poll(m) == alive = "alive" /\ m \in todo /\ Refresh(<<m>>) /\ UNCHANGED <<sam, alive>>

\* ---- what is seen
\* v: a thousand times the percentage, rounded
IsPercentage(v, p) == IF p.k = "range" THEN v >= 0 /\ v <= 100000 ELSE LET w == (100000 * p.num) \div p.den IN v >= 0 /\ v <= w + 1 /\ v >= (IF (100000 * p.num) % p.den = 0 THEN w - 1 ELSE w)
Sees(p, m, v) ==
    CASE m = "count" -> v = p.count
      [] m = "cpu" -> IsPercentage(v, p.cpu)
      [] m = "proc" -> IF p.proc.k = "range" THEN v >= 0 ELSE IsPercentage(v, p.proc)
      [] m = "total" -> v = p.total
      [] m = "used" -> v = p.used
      [] m = "rss" -> v = p.rss
\* A single value, at any moment: of the poll before, or of one which is going on.
Source(m) == IF m \in {"total", "used"} THEN "mem" ELSE m
Look(m, v) ==
    /\ \E ms \in {<<>>} \cup (IF alive = "alive" THEN {<<Source(m)>>, <<"count", Source(m)>>} ELSE {}) :
          /\ \A k \in DOMAIN ms : ms[k] \in todo
          /\ Refresh(ms)
    /\ Sees(pub', m, v)
    /\ UNCHANGED <<sam, alive>>
\* All values, between two polls: of this sample or, before enough time has passed, of the one before.
InOrder == <<"count", "cpu", "proc", "mem", "rss">>
Observe(all, settled) ==
    /\ alive = "alive"
    /\ \/ Refresh(InOrder)
       \/ todo = Metrics /\ ~settled /\ UNCHANGED <<pub, sprev, pprev, todo>>
    /\ \A m \in DOMAIN all : Sees(pub', m, all[m])
    /\ UNCHANGED <<sam, alive>>

Release == alive' = "gone" /\ UNCHANGED <<sam, todo, sprev, pprev, pub>>
\* afterwards the system is left alone
After(reads, expired) == alive = "gone" /\ reads = 0 /\ expired /\ UNCHANGED mvars

Meaningful == /\ pub.cpu.den > 0 /\ pub.cpu.num <= pub.cpu.den
              /\ alive = "alive" => pub.count > 0 /\ pub.proc.den > 0
=============================================================================
