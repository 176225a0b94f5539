---------------------------- MODULE Base64Trace ----------------------------
EXTENDS TraceKit, Base64
TraceInit == TraceKitInit
TEncode == IsOp("encode") /\ Cur.ok = TRUE /\ Cur.out = Encode(Cur.in) /\ Consume
TDecode == /\ IsOp("decode") /\ Cur.ok = Decodable(Cur.in)
           /\ Cur.out = (IF Cur.ok THEN Decode(Cur.in) ELSE Cur.before)
           /\ Consume
\* Decoding a file: nothing is promised about the content of the output when the input is invalid.
TDecodeFile == IsOp("decode_file") /\ Cur.ok = Decodable(Cur.in) /\ (Cur.ok => Cur.out = Decode(Cur.in)) /\ Consume
\* A long input is `n` repetitions of a unit (a multiple of three bytes) and a tail.
TEncodeBig == /\ IsOp("encode_big") /\ Len(Cur.unit) % 3 = 0
              /\ Cur.ok = TRUE /\ Cur.out_unit = Encode(Cur.unit) /\ Cur.out_n = Cur.n /\ Cur.out_tail = Encode(Cur.tail)
              /\ Consume
\* Likewise for decoding; the unit holds no padding.
TDecodeBig == /\ IsOp("decode_big") /\ Len(Cur.unit) % 4 = 0 /\ PadCount(Cur.unit) = 0
              /\ LET good == Decodable(Cur.unit) /\ Decodable(Cur.tail) IN
                   /\ Cur.ok = good
                   /\ good => /\ Cur.out_unit = Decode(Cur.unit) /\ Cur.out_n = Cur.n
                              /\ Cur.out_tail = Decode(Cur.tail)
              /\ Consume
TraceNext == TEncode \/ TDecode \/ TDecodeFile \/ TEncodeBig \/ TDecodeBig \/ Accept \/ Stay
TraceSpec == TraceInit /\ [][TraceNext]_<<tid, l>>
============================================================================
