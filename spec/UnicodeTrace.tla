---------------------------- MODULE UnicodeTrace ----------------------------
EXTENDS TraceKit, Unicode
TraceInit == TraceKitInit /\ UInit
Step(nm) == IsOp(nm) /\ Consume
Result(ok, out) == Cur.ok = ok /\ (ok => Cur.out = out)
TraceNext ==
    \/ Step("open") /\ Open(Cur.w, Cur.text)
    \/ Step("decode") /\ ReadCodepoint(Cur.ok, Cur.cp, Cur.next)
    \/ Step("escape1") /\ ReadEscaping(Cur.prefix, Cur.ok, Cur.out, Cur.next)
    \/ Step("unescape1") /\ ReadEscaped(Cur.ok, Cur.out, Cur.next)
    \/ Step("encode") /\ Result(Valid(Cur.cp), Encode(Cur.w, Cur.cp)) /\ UNCHANGED uvars
    \/ Step("validate") /\ Cur.ok = IsValid(width, text) /\ UNCHANGED uvars
    \/ Step("convert") /\ (LET c == DecodeAll(width, text) IN Result(c # <<None>>, EncodeAll(Cur.w, c))) /\ UNCHANGED uvars
    \/ Step("escape") /\ (LET c == DecodeAll(width, text) IN Result(c # <<None>>, EscapeAll(Cur.prefix, c))) /\ UNCHANGED uvars
    \/ Step("unescape") /\ (LET r == UnescapeAll(width, text) IN Result(r.ok, r.out)) /\ UNCHANGED uvars
    \/ ((Accept \/ Stay) /\ UNCHANGED uvars)
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l, uvars>>
=============================================================================
