-------------------------- MODULE FormatTextTrace ---------------------------
EXTENDS TraceKit, FormatText
TraceInit == TraceKitInit
Step(nm) == IsOp(nm) /\ Consume
Refused == <<73, 103, 110, 111, 114, 101, 100, 32, 105, 110, 118, 97, 108, 105, 100, 32, 102, 111, 114, 109, 97, 116, 116, 101, 114, 58, 32>>
Formatted(r) ==
    LET kinds == [k \in 1..Len(r.args) |-> r.args[k].k]
        p == Parsed(r.fmt, kinds)
    IN IF ~p.ok THEN IsPrefix(Refused, r.out) /\ Len(r.out) > Len(Refused)
       ELSE IF Open(p.parts, r.args, r) THEN ~IsPrefix(Refused, r.out)
       ELSE r.out = Rendered(p.parts, r.args, r)
TraceNext ==
    \/ Step("format") /\ Formatted(Cur)
    \/ (Accept \/ Stay)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
