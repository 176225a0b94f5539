-------------------------- MODULE JsonConvertTrace --------------------------
EXTENDS TraceKit, JsonConvert
Step(nm) == IsOp(nm) /\ Consume
TraceNext ==
    \/ /\ Step("as")
       /\ LET w == IF Cur.moved /\ IsA(Cur.t, "text") /\ ~IsA(Cur.v, "s") THEN Refusal ELSE As(Cur.t, Cur.v) IN
          \/ w = Open
          \/ w = Refusal /\ Cur.threw /\ Cur.after = Cur.v
          \/ /\ w # Refusal /\ w # Open /\ ~Cur.threw /\ Fit(Cur.t, w, Cur.x)
             /\ Cur.after = (IF Cur.moved THEN Null ELSE Cur.v)
    \/ /\ Step("from")
       /\ Cur.ok = Sound(Cur.x)
       /\ Cur.ok => Cur.v = From(Cur.x)
    \/ (Accept \/ Stay)
TraceSpec == TraceKitInit /\ [][TraceNext]_<<tid, l>>
=============================================================================
