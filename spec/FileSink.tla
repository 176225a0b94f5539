------------------------------ MODULE FileSink ------------------------------
(* A file logger: records go to the current file; once a file has grown past  *)
(* the limit it is closed and the next one is begun.  A closed file stays, as *)
(* it is or - when compression is on and succeeds - encoded and then without  *)
(* the plain file.  Nothing written is lost or changed by that.               *)
(* Files are numbered; each is a sequence of records.  Several loggers may    *)
(* share a directory, and do not get in each other's way.                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES sinks      \* logger -> [files,   number -> [recs, size, form: "plain", "encoded", "lost", blocked]
                     \*            cur,     number of the current file, 0: there is no logger
                     \*            limit, compress, encodable,
                     \*            alive,   the sink has not refused a record
                     \*            next]    index of the next record
fvars == <<sinks>>

FInit == sinks = <<>>
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Fresh == [recs |-> <<>>, size |-> 0, form |-> "plain", blocked |-> FALSE]

\* writable: a file can be created in the directory
Open(g, limit, compress, encodable, writable, ok) ==
    /\ g \notin DOMAIN sinks /\ ok = writable
    /\ sinks' = With(sinks, g, [limit |-> limit, compress |-> compress, encodable |-> encodable, alive |-> ok, next |-> 0,
                                files |-> IF ok THEN [n \in {1} |-> Fresh] ELSE <<>>, cur |-> IF ok THEN 1 ELSE 0])

Set(g, limit, compress, encodable) ==
    sinks' = [sinks EXCEPT ![g].limit = limit, ![g].compress = compress, ![g].encodable = encodable]

\* One record of `size` bytes is logged; `writable` is false while the directory is out of reach.
Logged(k, rec, size, writable) ==
    IF ~k.alive THEN k
    ELSE LET f == k.files[k.cur]
             grown == [f EXCEPT !.recs = IF f.form = "lost" THEN @ ELSE Append(@, <<k.next, rec>>),
                                !.size = IF f.form = "lost" THEN @ ELSE @ + size]
             \* a file which is not there any more has no size
             full == grown.size > k.limit \/ f.form = "lost" \/ ~writable
             closed == [grown EXCEPT !.form = IF @ = "plain" /\ k.compress /\ k.encodable /\ writable /\ ~f.blocked THEN "encoded" ELSE @]
         IN IF ~full THEN [k EXCEPT !.next = @ + 1, !.files[k.cur] = grown]
            ELSE IF writable THEN [k EXCEPT !.next = @ + 1, !.files = With([@ EXCEPT ![k.cur] = closed], k.cur + 1, Fresh), !.cur = @ + 1]
            ELSE [k EXCEPT !.next = @ + 1, !.files[k.cur] = closed, !.alive = FALSE]
Log(g, rec, size, writable) == sinks' = [sinks EXCEPT ![g] = Logged(@, rec, size, writable)]

\* Someone else removes a file.
Lose(g, n) == sinks' = [sinks EXCEPT ![g].files[n].form = "lost"]

\* There is no space to encode this file.
Block(g, n) == sinks' = [sinks EXCEPT ![g].files[n].blocked = TRUE]

\* The directory holds exactly the files of all of the loggers: [n, form, recs (what the file, decoded if need be, contains), size]
There == {<<g, n>> \in UNION {{g} \X DOMAIN sinks[g].files : g \in DOMAIN sinks} : sinks[g].files[n].form # "lost"}
Directory(seen) ==
    /\ LET Is(k, x) == LET f == sinks[x[1]].files[x[2]] IN
               seen[k].n = x[2] /\ seen[k].form = f.form /\ seen[k].recs = f.recs /\ seen[k].size = f.size
           Same(j, k) == seen[j].n = seen[k].n /\ seen[j].form = seen[k].form /\ seen[j].recs = seen[k].recs
       IN /\ Len(seen) = Cardinality(There)
          /\ \A k \in DOMAIN seen : Cardinality({j \in DOMAIN seen : Same(j, k)}) = Cardinality({x \in There : Is(k, x)})
    /\ UNCHANGED fvars

\* All records in the order of the files are the records logged, numbered from 0 (unless a file was removed).
Numbered == \A g \in DOMAIN sinks : \A n \in DOMAIN sinks[g].files : LET r == sinks[g].files[n].recs IN
                \A k \in DOMAIN r : k > 1 => r[k][1] = r[k - 1][1] + 1
=============================================================================
