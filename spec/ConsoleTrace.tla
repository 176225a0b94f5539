--------------------------- MODULE ConsoleTrace ---------------------------
EXTENDS TraceKit, Console
TraceInit == TraceKitInit /\ CInit
Step(nm) == IsOp(nm) /\ Consume
\* nothing appears on the other streams
Only(s) == \A k \in 1..3 : k # s => Cur.out[k] = <<>>
TraceNext ==
    \/ Step("format") /\ Only(0) /\ Format(Cur.stream, [base |-> Cur.base, prefix |-> Cur.prefix, plus |-> Cur.plus, width |-> Cur.width, fill |-> Cur.fill, left |-> Cur.left])
    \/ Step("print") /\ Only(Cur.stream) /\ Printed(Cur.stream, Cur.mods, Cur.keep, Cur.items, Cur.out[Cur.stream])
    \/ Step("close") /\ open # <<>> /\ Only(open[Len(open)].stream) /\ Close(Cur.out[open[Len(open)].stream])
    \/ Step("line") /\ Only(LineStream(Cur.level)) /\ Line(Cur.level, Cur.when, Cur.file, Cur.function, Cur.line, Cur.message, Cur.out[LineStream(Cur.level)])
    \/ Step("assert") /\ Only(Err)
        /\ Asserted(Cur.holds, Cur.expression, Cur.file, Cur.function, Cur.line, Cur.message, Cur.captures, Cur.evaluated, Cur.called, Cur.out[Err])
    \/ ((Accept \/ Stay) /\ UNCHANGED cvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, cvars>>
=============================================================================
