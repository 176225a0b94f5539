---------------------------- MODULE PathMonitor ----------------------------
(* Directories are watched from the moment a handler for them, or for a file  *)
(* in them, is registered, until their last handler is removed.  What happens *)
(* to a file in a watched directory is queued (a change which repeats the     *)
(* last queued one may be merged with it) and later, in order, handed to the  *)
(* handler of that file if there is one, else to the handler of its           *)
(* directory, as they are registered at that time; with neither it is         *)
(* dropped.  Calls take effect at one moment between their start and end.     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES there,    \* directories which exist
          watch,    \* directory -> generation of its watch, 0: none
          valid,    \* directories whose watch is in place (it ends with the directory)
          gen,
          dirH,     \* directory -> handler, 0: none
          fileH,    \* <<directory, file>> -> handler
          queue,    \* what happened, not handled yet
          calls,    \* thread -> call in progress
          live      \* "yes", "released", "no": the monitor
pvars == <<there, watch, valid, gen, dirH, fileH, queue, calls, live>>

PInit == there = {} /\ watch = <<>> /\ valid = {} /\ gen = 1 /\ dirH = <<>> /\ fileH = <<>> /\ queue = <<>> /\ calls = <<>> /\ live = "no"
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

New(n) == /\ there' = 1..n /\ watch' = [d \in 1..n |-> 0] /\ dirH' = [d \in 1..n |-> 0]
          /\ live' = "yes" /\ valid' = {} /\ UNCHANGED <<gen, fileH, queue, calls>>

Call(t, c) == t \notin DOMAIN calls /\ calls' = With(calls, t, [c EXCEPT !.st = "called"])
              /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, queue, live>>

FilesOf(d) == {x \in DOMAIN fileH : x[1] = d}
NoWatch(d) == watch' = [watch EXCEPT ![d] = 0] /\ valid' = valid \ {d} /\ UNCHANGED gen
\* a directory which was removed and made again is watched again, which drops what is left of the old one
Watched(d) == IF watch[d] = 0 \/ d \notin valid THEN watch' = [watch EXCEPT ![d] = gen] /\ gen' = gen + 1 /\ valid' = valid \cup {d}
              ELSE UNCHANGED <<watch, valid, gen>>

\* The call of thread t takes effect.
Effect(t) ==
    /\ t \in DOMAIN calls /\ calls[t].st = "called"
    /\ LET c == calls[t]
           d == c.d
           f == <<c.d, c.f>>
           ret(ok) == calls' = [calls EXCEPT ![t].st = "done", ![t].ok = ok]
       IN CASE c.op = "add_path" ->
                 IF d \in there /\ c.h # 0
                 THEN dirH' = [dirH EXCEPT ![d] = c.h] /\ Watched(d) /\ ret(TRUE) /\ UNCHANGED fileH
                 ELSE ret(FALSE) /\ UNCHANGED <<dirH, fileH, watch, valid, gen>>
            [] c.op = "add_file" ->
                 IF d \in there /\ c.h # 0
                 THEN fileH' = With(fileH, f, c.h) /\ Watched(d) /\ ret(TRUE) /\ UNCHANGED dirH
                 ELSE ret(FALSE) /\ UNCHANGED <<dirH, fileH, watch, valid, gen>>
            [] c.op = "remove_path" ->
                 IF d \in DOMAIN watch /\ watch[d] # 0
                 THEN dirH' = [dirH EXCEPT ![d] = 0] /\ fileH' = Without(fileH, FilesOf(d)) /\ NoWatch(d) /\ ret(TRUE)
                 ELSE ret(FALSE) /\ UNCHANGED <<dirH, fileH, watch, valid, gen>>
            [] c.op = "remove_file" ->
                 IF f \in DOMAIN fileH
                 THEN /\ fileH' = Without(fileH, {f}) /\ ret(TRUE) /\ UNCHANGED dirH
                      /\ IF FilesOf(d) = {f} /\ dirH[d] = 0 THEN NoWatch(d) ELSE UNCHANGED <<watch, valid, gen>>
                 ELSE ret(FALSE) /\ UNCHANGED <<dirH, fileH, watch, valid, gen>>
            [] c.op = "remove_all" ->
                 /\ dirH' = [x \in DOMAIN dirH |-> 0] /\ fileH' = <<>> /\ watch' = [x \in DOMAIN watch |-> 0]
                 /\ valid' = {} /\ ret(TRUE) /\ UNCHANGED gen
    /\ UNCHANGED <<there, queue, live>>

Ret(t, ok) == /\ t \in DOMAIN calls /\ calls[t].st = "done" /\ calls[t].ok = ok
              /\ calls' = Without(calls, {t})
              /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, queue, live>>

\* Something happens to file f in directory d.
Happens(d, f, kind) ==
    /\ LET e == [d |-> d, f |-> f, kind |-> kind, gen |-> watch[d]]
       IN IF d \notin valid THEN UNCHANGED queue
          ELSE \/ queue' = Append(queue, e)
               \/ queue # <<>> /\ queue[Len(queue)] = e /\ UNCHANGED queue
    /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, calls, live>>

Handler(e) == IF e.gen # watch[e.d] THEN 0
              ELSE IF <<e.d, e.f>> \in DOMAIN fileH THEN fileH[<<e.d, e.f>>] ELSE dirH[e.d]
\* Nobody wants the oldest event.
Skip == /\ queue # <<>> /\ Handler(Head(queue)) = 0
        /\ queue' = Tail(queue)
        /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, calls, live>>
Callback(h, d, f, kind) ==
    /\ live # "no"
    /\ queue # <<>> /\ h # 0
    /\ LET e == Head(queue) IN e.d = d /\ e.f = f /\ e.kind = kind /\ Handler(e) = h
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, calls, live>>

\* Left alone for longer than the poll interval: there is nothing left that anybody wants.
Quiet == (live = "yes" => \A k \in DOMAIN queue : Handler(queue[k]) = 0) /\ UNCHANGED pvars
Release == live' = "released" /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, queue, calls>>
Gone == live' = "no" /\ UNCHANGED <<there, watch, valid, gen, dirH, fileH, queue, calls>>

\* The directory itself is removed (it is empty), and made again.
RemoveDir(d) == /\ there' = there \ {d} /\ valid' = valid \ {d}
                /\ UNCHANGED <<watch, gen, dirH, fileH, queue, calls, live>>
MakeDir(d) == /\ there' = there \cup {d} /\ UNCHANGED <<watch, valid, gen, dirH, fileH, queue, calls, live>>

\* A directory is watched exactly while somebody wants to know.
WatchedIffWanted == \A d \in DOMAIN watch : (watch[d] # 0) = (dirH[d] # 0 \/ FilesOf(d) # {})
=============================================================================
