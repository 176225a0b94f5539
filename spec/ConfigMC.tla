------------------------------ MODULE ConfigMC ------------------------------
(* Configurations are requested and dropped while the file changes.           *)
EXTENDS Config
CONSTANTS Threads, MaxCalls, MaxWrites
VARIABLES made, writes
mcvars == <<cvars, made, writes>>
MCInit == CInit /\ made = 0 /\ writes = 0
V(x) == [k \in {"a"} |-> [kind |-> "int", v |-> x]]
Contents == {None, [form |-> "bad", secs |-> Empty], [form |-> "other", secs |-> Empty]} \cup
            {[form |-> "sections", secs |-> s] : s \in {Empty, [n \in {"x"} |-> V("1")], [n \in {"x", "y"} |-> V("2")]}}
Refresh == (Update \/ \E c \in todo : UpdateOne(c)) /\ UNCHANGED <<made, writes>>
Next ==
    \/ live = "no" /\ made = 0 /\ \E g \in BOOLEAN : New(g, g) /\ made' = 1 /\ UNCHANGED writes
    \/ writes < MaxWrites /\ live = "yes" /\ (\E c \in Contents, t \in BOOLEAN : Write(c, t)) /\ writes' = writes + 1 /\ UNCHANGED made
    \/ /\ live = "yes" /\ made <= MaxCalls
       /\ \E t \in Threads, s \in {"x", "y"}, ty \in {0, 1} :
             Call(t, [op |-> "create", st |-> "called", sec |-> s, type |-> ty, id |-> 0, new |-> made])
       /\ made' = made + 1 /\ UNCHANGED writes
    \/ \E t \in DOMAIN calls : \/ (\E id \in {-1, calls[t].new} \cup DOMAIN conf : CreateEffect(t, id)) /\ UNCHANGED <<made, writes>>
                               \/ CreateRet(t, calls[t].id) /\ UNCHANGED <<made, writes>>
    \/ \E id \in DOMAIN conf : (\A t \in DOMAIN calls : calls[t].id # id) /\ Drop(id) /\ UNCHANGED <<made, writes>>
    \/ Refresh
    \/ live = "yes" /\ Release /\ UNCHANGED <<made, writes>>
Spec == MCInit /\ [][Next]_mcvars /\ WF_mcvars(Refresh)
\* One live object per section, of one type.
OneEach == \A x, y \in DOMAIN conf : conf[x].sec = conf[y].sec => x = y
\* Values come from one reading of the file, or are the ones of an earlier one.
Settled == todo = {} /\ (~dirty) => \A x \in DOMAIN conf : conf[x].vals = Section(values, conf[x].sec)
\* In the end every configuration has the values of the file.
Follows == <>[](live # "no" /\ dirty /\ ~torn /\ content.form # "other" =>
                  \A x \in DOMAIN conf : conf[x].vals = Section(IF content.form = "sections" THEN content.secs ELSE Empty, conf[x].sec))
=============================================================================
