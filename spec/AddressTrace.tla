---------------------------- MODULE AddressTrace ----------------------------
EXTENDS TraceKit, Address
TraceInit == TraceKitInit
Step(nm) == IsOp(nm) /\ Consume
Same(r) == Cur.ok = r.ok /\ Cur.octets = r.octets /\ Cur.port = r.port
TraceNext ==
    \/ Step("v4") /\ Same(V4(Cur.text))
    \/ Step("v6") /\ (IF LeftOpen(Cur.text) THEN TRUE ELSE Same(V6(Cur.text)))
    \/ Step("e4") /\ Same(Endpoint(Cur.text, FALSE))
    \/ Step("e6") /\ (IF LeftOpen(Cur.text) THEN TRUE ELSE Same(Endpoint(Cur.text, TRUE)))
    \/ Step("show4") /\ Cur.text = Show4(Cur.octets) /\ Cur.endpoint = Cur.text \o <<Colon>> \o Decimal(Cur.port)
    \/ Step("show6") /\ V6(Cur.text) = Yes(Cur.octets) /\ Cur.text = Show6(Cur.octets)
                     /\ Cur.endpoint = <<91>> \o Cur.text \o <<93, Colon>> \o Decimal(Cur.port)
    \/ Step("compare") /\ Cur.eq = (Cur.a = Cur.b) /\ Cur.ne = ~Cur.eq /\ Cur.lt = LessA(Cur.a, Cur.b) /\ Cur.gt = LessA(Cur.b, Cur.a)
                       /\ Cur.le = ~Cur.gt /\ Cur.ge = ~Cur.lt
                       /\ Cur.epeq = (Cur.a = Cur.b /\ Cur.p = Cur.q) /\ Cur.eplt = LessE(Cur.a, Cur.p, Cur.b, Cur.q)
                       /\ Cur.epgt = LessE(Cur.b, Cur.q, Cur.a, Cur.p)
    \/ Step("named") /\ Cur.any4 = <<0, 0, 0, 0>> /\ Cur.all4 = <<255, 255, 255, 255>> /\ Cur.lo4 = <<127, 0, 0, 1>>
                     /\ Cur.any6 = [k \in 1..16 |-> 0] /\ Cur.lo6 = [k \in 1..16 |-> IF k = 16 THEN 1 ELSE 0]
                     /\ Cur.def4 = Cur.any4 /\ Cur.def6 = Cur.any6
    \/ (Accept \/ Stay)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
