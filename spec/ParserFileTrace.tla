-------------------------- MODULE ParserFileTrace ---------------------------
EXTENDS TraceKit, ParserFile
Step(nm) == IsOp(nm) /\ Consume
Result(t) ==
    IF t = <<None>> THEN [ok |-> FALSE, open |-> FALSE, v |-> Null]
    ELSE IF Cur.kind = "ini" THEN ParseIni(t)
    ELSE LET r == Parse(t, [comments |-> Cur.loose, trailing |-> Cur.loose, any |-> Cur.loose]) IN [ok |-> r.ok, open |-> FALSE, v |-> r.v]
TraceNext ==
    \/ /\ Step("file")
       /\ LET r == Result(Text(Cur.bytes)) IN
          IF Cur.unreadable THEN ~Cur.ok ELSE r.open \/ (Cur.ok = r.ok /\ (r.ok => Cur.v = r.v))
    \/ (Accept \/ Stay)
TraceSpec == TraceKitInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
