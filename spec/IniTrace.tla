------------------------------ MODULE IniTrace ------------------------------
EXTENDS TraceKit, Ini
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ Step("ini") /\ LET r == ParseIni(Cur.text) IN r.open \/ (Cur.ok = r.ok /\ (r.ok => Cur.v = r.v))
    \/ (Accept \/ Stay)
TraceSpec == TraceKitInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
