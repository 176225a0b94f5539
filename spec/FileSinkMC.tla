----------------------------- MODULE FileSinkMC -----------------------------
(* Records of several sizes, changing settings, faults, in every order.       *)
EXTENDS FileSink
CONSTANTS Loggers, Records, Faults
VARIABLES faults, accepted
mcvars == <<fvars, faults, accepted>>
Limits == {0, 2}
MCInit == FInit /\ faults = 0 /\ accepted = [g \in Loggers |-> 0]
Harm(A) == faults < Faults /\ faults' = faults + 1 /\ A /\ UNCHANGED accepted
Open1(g) == g \notin DOMAIN sinks /\ (\A h \in Loggers : h < g => h \in DOMAIN sinks) /\
            \E limit \in Limits, c \in BOOLEAN, w \in BOOLEAN : (w \/ faults < Faults) /\ Open(g, limit, c, TRUE, w, w)
                                                  /\ faults' = faults + (IF w THEN 0 ELSE 1) /\ UNCHANGED accepted
Write(g) == sinks[g].next < Records /\ \E size \in 1..3, w \in BOOLEAN :
          /\ (w \/ faults < Faults)
          /\ Log(g, sinks[g].next, size, w) /\ faults' = faults + (IF w THEN 0 ELSE 1)
          /\ accepted' = [accepted EXCEPT ![g] = @ + (IF sinks[g].alive THEN 1 ELSE 0)]
Next ==
    \/ \E g \in Loggers : Open1(g)
    \/ \E g \in DOMAIN sinks : sinks[g].cur # 0 /\
       \/ Write(g)
       \/ Harm(\E limit \in Limits, c, e \in BOOLEAN : Set(g, limit, c, e))
       \/ Harm(\E n \in DOMAIN sinks[g].files : sinks[g].files[n].form # "lost" /\ Lose(g, n))
       \/ Harm(\E n \in DOMAIN sinks[g].files : sinks[g].files[n].form = "plain" /\ ~sinks[g].files[n].blocked /\ Block(g, n))
Spec == MCInit /\ [][Next]_mcvars
RECURSIVE All(_, _)
All(files, n) == IF n = 0 THEN <<>> ELSE All(files, n - 1) \o files[n].recs
\* the files hold every record that was accepted, once, in order (unless a file was taken away)
Complete == \A g \in DOMAIN sinks : LET files == sinks[g].files IN
              ((\A n \in DOMAIN files : files[n].form # "lost") /\ sinks[g].cur # 0) =>
              (LET a == All(files, Cardinality(DOMAIN files)) IN Len(a) = accepted[g] /\ \A k \in DOMAIN a : a[k] = <<k - 1, k - 1>>)
\* only the last file is written to
Appended == [][\A g \in DOMAIN sinks : \A n \in DOMAIN sinks[g].files :
                 n # sinks[g].cur => sinks'[g].files[n].recs = sinks[g].files[n].recs]_mcvars
\* what one logger does changes no other
Apart == [][Cardinality({g \in DOMAIN sinks : sinks'[g] # sinks[g]}) <= 1]_mcvars
\* what is closed is not written to again, and only the current file is open
Current == \A g \in DOMAIN sinks : sinks[g].cur # 0 =>
              (/\ sinks[g].cur = Cardinality(DOMAIN sinks[g].files)
               /\ sinks[g].alive => sinks[g].files[sinks[g].cur].form # "encoded")
=============================================================================
