------------------------------- MODULE Config -------------------------------
(* A manager keeps typed configurations up to date with a file.  After each   *)
(* change of the file it is read again, at some later moment: a file of       *)
(* sections gives every live configuration the values of its section (and     *)
(* defaults for what is not there); a file which cannot be read or parsed     *)
(* gives all of them their defaults; a file which is not made of sections     *)
(* leaves them alone.                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

VARIABLES content,   \* the file: [form: "none", "bad", "other", "sections", secs: section -> key -> value]
          dirty,     \* the file may have to be read
          torn,      \* it was written in place: a reading may fail, having seen parts of two contents
          values,    \* what was read last: section -> key -> value
          conf,      \* live configuration objects: id -> [sec, type, vals]
          held,      \* id -> the user holds it
          todo,      \* configurations an update still has to reach
          calls,     \* thread -> the call in progress
          live       \* "yes", "released", "no"
cvars == <<content, dirty, torn, values, conf, held, todo, calls, live>>

Empty == <<>>
None == [form |-> "none", secs |-> Empty]
CInit == content = None /\ dirty = FALSE /\ torn = FALSE /\ values = Empty /\ conf = Empty /\ held = {} /\ todo = {} /\ calls = Empty /\ live = "no"
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Section(vals, s) == IF s \in DOMAIN vals THEN vals[s] ELSE Empty

New(good, ok) == /\ ok = good /\ live' = IF ok THEN "yes" ELSE "no"
                 /\ UNCHANGED <<content, dirty, torn, values, conf, held, todo, calls>>
Write(c, t) == content' = c /\ dirty' = TRUE /\ torn' = t /\ UNCHANGED <<values, conf, held, todo, calls, live>>

\* The file is read.
Update ==
    /\ live # "no" /\ dirty /\ todo = {}
    /\ \/ /\ values' = IF content.form = "sections" THEN content.secs ELSE Empty
          /\ todo' = IF content.form = "other" THEN {} ELSE DOMAIN conf
       \/ torn /\ values' = Empty /\ todo' = DOMAIN conf
    /\ UNCHANGED <<content, dirty, torn, conf, held, calls, live>>
UpdateOne(c) ==
    /\ c \in todo /\ todo' = todo \ {c}
    /\ conf' = [conf EXCEPT ![c].vals = Section(values, conf[c].sec)]
    /\ UNCHANGED <<content, dirty, torn, values, held, calls, live>>

Call(t, c) == t \notin DOMAIN calls /\ calls' = With(calls, t, c) /\ UNCHANGED <<content, dirty, torn, values, conf, held, todo, live>>

\* create_config<type>() for a section; a configuration which exists is shared, if it is of that type
CreateEffect(t, id) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "create" /\ calls[t].st = "called" /\ todo = {}
    /\ LET c == calls[t]
           same == {x \in DOMAIN conf : conf[x].sec = c.sec}
       IN IF same = {}
          THEN /\ id \notin DOMAIN conf
               /\ conf' = With(conf, id, [sec |-> c.sec, type |-> c.type, vals |-> Section(values, c.sec), refs |-> 1])
               /\ calls' = [calls EXCEPT ![t].st = "done", ![t].id = id]
          ELSE LET x == CHOOSE y \in same : TRUE IN
               IF conf[x].type # c.type
               THEN id = -1 /\ calls' = [calls EXCEPT ![t].st = "done", ![t].id = -1] /\ UNCHANGED conf
               ELSE /\ id = x
                    /\ conf' = [conf EXCEPT ![x].vals = Section(values, c.sec), ![x].refs = @ + 1]
                    /\ calls' = [calls EXCEPT ![t].st = "done", ![t].id = x]
    /\ UNCHANGED <<content, dirty, torn, values, held, todo, live>>
CreateRet(t, id) ==
    /\ t \in DOMAIN calls /\ calls[t].op = "create" /\ calls[t].st = "done" /\ calls[t].id = id
    /\ calls' = Without(calls, {t})
    /\ UNCHANGED <<content, dirty, torn, values, conf, held, todo, live>>

\* a reference to a configuration is dropped; an update in progress may hold it for a moment longer
Drop(id) ==
    /\ IF conf[id].refs = 1 THEN conf' = Without(conf, {id}) /\ todo' = todo \ {id}
       ELSE conf' = [conf EXCEPT ![id].refs = @ - 1] /\ UNCHANGED todo
    /\ UNCHANGED <<content, dirty, torn, values, held, calls, live>>

\* get_value(key, default) observed at one moment; kind: "int" or "str"
Get(id, key, kind, def, val) ==
    /\ LET v == conf[id].vals
           hit == key \in DOMAIN v /\ v[key].kind = kind
       IN val = IF hit THEN v[key].v ELSE def
    /\ UNCHANGED cvars

\* prune() returns the number of identifiers with a live configuration, its own ("path") included
PruneRet(n) == n = 1 + Cardinality({conf[x].sec : x \in DOMAIN conf}) /\ UNCHANGED cvars

Quiet == /\ todo = {}
         /\ live = "yes" /\ dirty =>
              \/ content.form = "other"
              \/ /\ values = (IF content.form = "sections" THEN content.secs ELSE Empty)
                 /\ \A x \in DOMAIN conf : conf[x].vals = Section(values, conf[x].sec)
         /\ UNCHANGED cvars
Release == live' = (IF live = "yes" THEN "released" ELSE live) /\ UNCHANGED <<content, dirty, torn, values, conf, held, todo, calls>>
Gone == todo = {} /\ live' = "no" /\ UNCHANGED <<content, dirty, torn, values, conf, held, todo, calls>>
=============================================================================
