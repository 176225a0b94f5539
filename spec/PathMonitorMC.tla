--------------------------- MODULE PathMonitorMC ---------------------------
(* Threads register and remove handlers while files and directories change,   *)
(* in every order.  Every registration brings a handler of its own.           *)
EXTENDS PathMonitor
CONSTANTS Threads, Dirs, MaxCalls, MaxEvents, MaxFailures
VARIABLES made,      \* calls so far
          happened,  \* changes so far
          broken,    \* directories removed so far
          covered,   \* thread -> handlers which its removal is to remove
          removed    \* handlers whose removal has returned
mcvars == <<pvars, made, happened, broken, covered, removed>>
own == <<made, happened, broken, covered, removed>>
MCInit == PInit /\ made = 0 /\ happened = 0 /\ broken = 0 /\ covered = [t \in Threads |-> {}] /\ removed = {}
Registered(d) == ({dirH[d]} \cup {fileH[x] : x \in FilesOf(d)}) \ {0}
Covered(op, d, f) == CASE op = "remove_path" -> Registered(d)
                       [] op = "remove_file" -> IF <<d, f>> \in DOMAIN fileH THEN {fileH[<<d, f>>]} ELSE {}
                       [] op = "remove_all" -> UNION {Registered(x) : x \in Dirs}
                       [] OTHER -> {}
Progress == Skip \/ \E t \in DOMAIN calls : Effect(t)
Deliver == live = "yes" /\ queue # <<>> /\ LET e == Head(queue) IN Callback(Handler(e), e.d, e.f, e.kind)
Run == (Progress \/ Deliver) /\ UNCHANGED own
Next ==
    \/ live = "no" /\ watch = <<>> /\ New(Cardinality(Dirs)) /\ UNCHANGED own
    \/ /\ live = "yes" /\ made < MaxCalls
       /\ \E t \in Threads, op \in {"add_path", "add_file", "remove_path", "remove_file", "remove_all"}, d \in Dirs, f \in {1} :
            /\ Call(t, [op |-> op, d |-> d, f |-> f, h |-> made + 1, ok |-> FALSE, st |-> "called"])
            /\ covered' = [covered EXCEPT ![t] = Covered(op, d, f)]
       /\ made' = made + 1 /\ UNCHANGED <<happened, broken, removed>>
    \/ \E t \in DOMAIN calls : /\ Ret(t, calls[t].ok)
                               /\ removed' = removed \cup (IF calls[t].ok THEN covered[t] ELSE {})
                               /\ covered' = [covered EXCEPT ![t] = {}]
                               /\ UNCHANGED <<made, happened, broken>>
    \/ /\ live = "yes" /\ happened < MaxEvents /\ \E d \in there, k \in {"created", "changed"} : Happens(d, 1, k)
       /\ happened' = happened + 1 /\ UNCHANGED <<made, broken, covered, removed>>
    \/ /\ live = "yes" /\ broken < MaxFailures /\ \E d \in there : RemoveDir(d)
       /\ broken' = broken + 1 /\ UNCHANGED <<made, happened, covered, removed>>
    \/ live = "yes" /\ (\E d \in Dirs \ there : MakeDir(d)) /\ UNCHANGED own
    \/ Run
Spec == MCInit /\ [][Next]_mcvars /\ WF_mcvars(Run)
\* Once its removal has returned, a handler is not called any more.
NeverAfter == \A d \in DOMAIN dirH : Registered(d) \cap removed = {}
\* A handler hears only of its own file, or of a file in its own directory.
Own == [][(live = "yes" /\ Len(queue') < Len(queue)) => LET e == Head(queue) IN Handler(e) # 0 => Handler(e) \in Registered(e.d)]_mcvars
\* Everything is delivered or found to be unwanted in the end.
Drains == <>[](queue = <<>>)
=============================================================================
