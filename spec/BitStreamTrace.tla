--------------------------- MODULE BitStreamTrace ---------------------------
EXTENDS TraceKit, BitStream

TraceInit == TraceKitInit /\ BSInit

TWrite == IsOp("write") /\ Write(Cur.value, Cur.size) /\ Consume
TFinish == /\ IsOp("finish")
           /\ IF Cur.refused THEN ~Cur.ok /\ Refused(Cur.file) ELSE Finish /\ Cur.ok = TRUE /\ Cur.file = file'
           /\ Consume
\* reading from a stream which breaks
TBroken == \/ IsOp("bopen") /\ OpenBroken(Cur.ok) /\ Consume
           \/ IsOp("bread") /\ ReadBroken(Cur.size, Cur.n, Cur.value, Cur.peek) /\ Consume
           \/ IsOp("bconsumed") /\ ~Cur.result /\ UNCHANGED bsvars /\ Consume
TInject == IsOp("inject") /\ Inject(Cur.file) /\ Consume
TOpen == IsOp("open") /\ Open /\ Cur.ok = rok' /\ Cur.header = (IF Len(file) = 0 THEN 0 ELSE file[1]) /\ Consume
TRead == IsOp("read") /\ Read(Cur.size, Cur.n, Cur.value) /\ Consume
TWhole == IsOp("whole") /\ Read(Cur.size, Cur.n, Cur.value) /\ Cur.ok = (Cur.n = Cur.size) /\ Consume
TShort == IsOp("short") /\ Short(Cur.size) /\ Consume
TPeek == IsOp("peek") /\ Peek(Cur.size, Cur.n, Cur.value) /\ Consume
TDiscard == IsOp("discard") /\ Discard(Cur.n) /\ Consume
TConsumed == IsOp("consumed") /\ Consumed(Cur.result) /\ Consume

TraceNext == \/ TWrite \/ TFinish \/ TInject \/ TOpen \/ TRead \/ TWhole \/ TShort \/ TPeek \/ TDiscard \/ TConsumed \/ TBroken
             \/ (Accept \/ Stay) /\ UNCHANGED bsvars
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, bsvars>>
=============================================================================
