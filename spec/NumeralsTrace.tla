--------------------------- MODULE NumeralsTrace ---------------------------
EXTENDS TraceKit, Numerals
TraceInit == TraceKitInit
Step(nm) == IsOp(nm) /\ Consume
Result(r) == Cur.ok = r.ok /\ Cur.neg = r.neg /\ Cur.value = r.value
TraceNext ==
    \/ Step("convert") /\ Result(ToInteger(Cur.text, Cur.bits, Cur.signed))
    \/ Step("real") /\
        LET r == ToReal(Cur.text) IN
        IF ~Cur.ok THEN ~r.ok \/ Refusable(Cur.precision, r)
        ELSE /\ r.ok
             /\ Cur.neg = r.neg
             /\ IF r.class = "finite"
                THEN \/ Cur.class = "finite" /\ NearestReal(r, [x |-> Cur.low_x, ds |-> Cur.low_ds], [x |-> Cur.high_x, ds |-> Cur.high_ds], Cur.even)
                     \* too small for the type
                     \/ Cur.class = "zero" /\ r.x < SmallestReal(Cur.precision) - 7
                ELSE Cur.class = r.class
    \/ Step("literal") /\ Result(Literal(Cur.text, Cur.bits, Cur.signed))
    \* bytes in memory: swapped for the order which is not that of the machine
    \/ Step("swap") /\ Cur.out = Reverse(Cur.bytes) /\ Cur.twice = Cur.bytes
                    /\ Cur.native = Cur.bytes /\ Cur.other = Reverse(Cur.bytes)
    \/ (Accept \/ Stay)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
